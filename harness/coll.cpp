// coll input.xml < queries > records
// queries: "sig <n> <signature>...", "nuc <n> <name>...", then
//   coll x y z energy type n seed nsamples nedges edge... nmus mu...
// collides n particles of the given state and reports what became of them
#include "common.hpp"
#include "Material.hpp"
#include "Nuclide.hpp"
#include "Verif.hpp"
#include "World.hpp"
#include "XMLDocument.hpp"
#include <algorithm>
#include <set>

namespace {
std::uint_fast64_t draw(verif::ScriptedEngine& e) {
  std::uint64_t z = (e.seed += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
constexpr int B = 8;
int cell(double u) { return u < 0 ? 0 : u >= 1 ? B - 1 : static_cast<int>(u * B); }
std::string list(const std::vector<long>& h) {
  std::string r = "[";
  for (size_t i = 0; i < h.size(); i++) r += (i ? "," : "") + std::to_string(h[i]);
  return r + "]";
}
}

int main(int, char** argv) {
  XMLDocument doc{argv[1]};
  const World w{doc.root};
  verif::ScriptedEngine::draw = draw;
  Tokens t{std::cin};
  std::vector<std::string> sigs, nucs;
  std::map<const Nuclide*, int> index;
  std::string c;
  while (t.next(c)) {
    if (c == "sig") { sigs.resize(t.integer()); for (auto& s : sigs) s = t.str(); continue; }
    if (c == "nuc") { nucs.resize(t.integer()); for (auto& s : nucs) s = t.str(); continue; }
    const auto p = t.point();
    const double E = t.num();
    const auto ty = t.str();
    const long n = t.integer(), seed = t.integer(), ns = t.integer();
    std::vector<double> edges(t.integer());
    for (auto& e : edges) e = t.num();
    std::vector<double> mus(t.integer());
    for (auto& m : mus) m = t.num();
    const Cell& cl = w.FindCellContaining(p);
    const auto s = signature(cl);
    int ci = -1;
    for (size_t i = 0; i < sigs.size(); i++) if (sigs[i] == s) ci = i + 1;
    std::map<int, long> hits;
    std::map<std::pair<int, std::string>, long> ev;
    std::map<std::pair<int, int>, long> yields;
    std::map<int, std::vector<std::vector<long>>> hist;
    std::set<std::string> bad;
    std::vector<long> phi(B), fx(B), fy(B), fz(B);
    std::string samples;
    long taken = 0;
    const Direction dirs[4] = {Direction{1, 0, 0}, Direction{0.3, -0.5, 0.7}, Direction{0, 0, -1}, Direction{-0.8, 0.1, 0.2}};
    for (long k = 0; k < n; k++) {
      const Direction& d = dirs[k % 4];
      Particle q{p, d, Energy{ContinuousEnergy{E}}, Particle::ToType(ty), static_cast<RNG::result_type>(0x51ed2701a3c5e491ull * (seed * 100000000ll + k + 1)), &cl};
      const Nuclide& nc = q.SampleNuclide();
      int& ni = index[&nc];
      if (!ni) for (size_t i = 0; i < nucs.size(); i++) if (nucs[i] == nc.name) ni = i + 1;
      hits[ni]++;
      nc.Interact(q);
      ev[{ni, eventName(q.event)}]++;
      const double e = std::get<ContinuousEnergy>(q.GetEnergy());
      const Point o = q.GetDirection();
      if (!(q.GetPosition() == p)) bad.insert("position changed by a collision");
      Bank bank;
      q.MoveSecondariesTo(bank);
      long banked = 0;
      while (!bank.empty()) {
        const auto& x = bank.back();
        banked++;
        const Point f = x.GetDirection();
        fx[cell((comp(f, 0) + 1) / 2)]++;
        fy[cell((comp(f, 1) + 1) / 2)]++;
        fz[cell((comp(f, 2) + 1) / 2)]++;
        if (!(x.GetPosition() == p) || x.GetType() != Particle::Type::neutron || std::get<ContinuousEnergy>(x.GetEnergy()) != E || !(std::fabs(f.Dot(f) - 1) < 1e-12))
          bad.insert("fission neutron");
        bank.pop_back();
      }
      if (q.event == Particle::Event::fission) yields[{ni, banked}]++;
      else if (banked) bad.insert("secondaries without fission");
      if (q.event == Particle::Event::scatter) {
        if (!q.IsAlive()) bad.insert("scattering ends the walk");
        if (!(e > 0) || std::isinf(e)) bad.insert("energy after scattering is not positive");
        if (!(std::fabs(o.Dot(o) - 1) < 1e-9)) bad.insert("direction after scattering is not a unit vector");
        const double mu = o.Dot(d);
        auto& h = hist[ni];
        if (h.empty()) h.resize(edges.size() + 1, std::vector<long>(mus.size() + 1));
        h[std::upper_bound(edges.begin(), edges.end(), e) - edges.begin()][std::count_if(mus.begin(), mus.end(), [mu](double m) { return mu <= m; })]++;
        // azimuth about the incoming direction
        const Point a = std::fabs(comp(d, 0)) < 0.5 ? Point{1, 0, 0} : Point{0, 1, 0};
        const Direction u{d.Cross(a)};
        const Point v = d.Cross(u);
        if (std::fabs(mu) < 0.999999) phi[cell((std::atan2(o.Dot(v), o.Dot(u)) + M_PI) / (2 * M_PI))]++;
        if (taken < ns) { samples += (taken ? ",[" : "[") + std::to_string(ni) + "," + hx(e) + "," + hx(mu) + "]"; taken++; }
      }
      else {
        if (q.IsAlive()) bad.insert("capture or fission does not end the walk");
        if (e != E || !(o == d)) bad.insert("capture or fission changes energy or direction");
      }
    }
    std::cout << "{\"t\":\"coll\",\"p\":" << pt(p) << ",\"E\":" << hx(E) << ",\"ty\":\"" << ty << "\",\"c\":" << ci << ",\"n\":" << n << ",\"hits\":[";
    bool f = true;
    for (auto& [a, b] : hits) { std::cout << (f ? "" : ",") << "[" << a << "," << b << "]"; f = false; }
    std::cout << "],\"ev\":["; f = true;
    for (auto& [a, b] : ev) { std::cout << (f ? "" : ",") << "[" << a.first << ",\"" << a.second << "\"," << b << "]"; f = false; }
    std::cout << "],\"yields\":["; f = true;
    for (auto& [a, b] : yields) { std::cout << (f ? "" : ",") << "[" << a.first << "," << a.second << "," << b << "]"; f = false; }
    std::cout << "],\"bad\":["; f = true;
    for (auto& b : bad) { std::cout << (f ? "" : ",") << js(b); f = false; }
    std::cout << "],\"phi\":" << list(phi) << ",\"fdirs\":[" << list(fx) << "," << list(fy) << "," << list(fz) << "],\"edges\":[";
    for (size_t i = 0; i < edges.size(); i++) std::cout << (i ? "," : "") << hx(edges[i]);
    std::cout << "],\"mus\":[";
    for (size_t i = 0; i < mus.size(); i++) std::cout << (i ? "," : "") << hx(mus[i]);
    std::cout << "],\"hist\":["; f = true;
    for (auto& [a, b] : hist) { std::cout << (f ? "" : ",") << "[" << a << ",[";
      for (size_t i = 0; i < b.size(); i++) std::cout << (i ? "," : "") << list(b[i]);
      std::cout << "]]"; f = false; }
    std::cout << "],\"samples\":[" << samples << "]}\n";
  }
}
