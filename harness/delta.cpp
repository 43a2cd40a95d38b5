// delta input.xml < script > record
// stdin: "n <edges> edge..."
// Runs the problem, whose source particles all start in the same state, and
// prints what became of each up to its first collision: where the first
// tentative collision was and whether it was accepted, where the first real
// collision was and of which kind.
#include "common.hpp"
#include "Driver.hpp"
#include "Material.hpp"
#include "Verif.hpp"
#include "World.hpp"
#include <algorithm>
#include <set>

struct Peek : Driver {
  static const World& getWorld(const Driver& d) { return d.*(&Peek::world); }
};
namespace {
std::uint_fast64_t draw(verif::ScriptedEngine& e) {
  std::uint64_t z = (e.seed += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
const World* world = nullptr;
std::vector<double> edges;
int bin(double t) { return std::upper_bound(edges.begin(), edges.end(), t) - edges.begin(); }
long n = 0, crossed = 0;
std::vector<long> accepted, rejected;
std::vector<std::vector<long>> real(3);
std::set<std::string> bad;
double M = 0, far = 0;
struct Rec : verif::Observer {
  Point p0, d0;
  double E0 = 0;
  Particle::Type ty = Particle::Type::neutron;
  const Cell* home = nullptr;
  bool first = true, counting = false;
  double at = 0;
  void OnSourceSample(std::uint64_t) override { counting = true; first = true; at = 0; n++; }
  void OnTransportBegin(const Particle& p) override {
    p0 = p.GetPosition(); d0 = p.GetDirection(); E0 = std::get<ContinuousEnergy>(p.GetEnergy()); ty = p.GetType();
    if (M == 0) {
      Particle q{p};
      home = &world->FindCellContaining(p0, d0);
      q.SetCell(*home);
      M = q.GetCell().material->GetMicroscopicMajorant(q);
    }
  }
  void OnScore(const Particle& p) override {
    if (!counting) return;
    Point v = p.GetPosition() - p0;
    const double t = v.Dot(d0);
    if (!(t > at)) bad.insert("no flight before an event");
    at = t;
    const bool off = !(std::fabs(v.Dot(v) - t * t) <= 1e-9 * (1 + t * t));
    if (off) bad.insert("flight leaves its direction");
    if (p.event == Particle::Event::virtual_collision) {
      if (first) rejected[bin(t)]++;
      first = false;
      if (!(p.GetDirection() == d0)) bad.insert("rejected collision changes the direction");
      if (std::get<ContinuousEnergy>(p.GetEnergy()) != E0) bad.insert("rejected collision changes the energy");
      if (p.GetType() != ty) bad.insert("rejected collision changes the type");
      if (&p.GetCell() != home) bad.insert("rejected collision changes the region");
      if (p.current_surface) bad.insert("rejected collision is at a surface");
      if (!p.IsAlive()) bad.insert("rejected collision ends the walk");
      Particle q{p};
      Bank b;
      q.MoveSecondariesTo(b);
      if (!b.empty()) bad.insert("rejected collision has secondaries");
      return;
    }
    counting = false;
    if (p.event == Particle::Event::surface_cross || p.event == Particle::Event::leak) { crossed++; far = std::max(far, t); }
    else {
      if (first) accepted[bin(t)]++;
      real[p.event == Particle::Event::capture ? 0 : p.event == Particle::Event::scatter ? 1 : 2][bin(t)]++;
    }
    // what happens later is of no interest
    auto& q = const_cast<Particle&>(p);
    Bank b;
    q.MoveSecondariesTo(b);
    q.event = Particle::Event::capture;
  }
};
std::string list(const std::vector<long>& h) {
  std::string r = "[";
  for (size_t i = 0; i < h.size(); i++) r += (i ? "," : "") + std::to_string(h[i]);
  return r + "]";
}
}

int main(int, char** argv) {
  Tokens t{std::cin};
  std::string c;
  while (t.next(c)) { edges.resize(t.integer()); for (auto& e : edges) e = t.num(); }
  accepted.resize(edges.size() + 1); rejected = accepted;
  for (auto& r : real) r.resize(edges.size() + 1);
  Quiet quiet;
  auto driver = Driver::Create(argv[1]);
  world = &Peek::getWorld(*driver);
  verif::ScriptedEngine::draw = draw;
  Rec rec;
  verif::observer = &rec;
  driver->Solve();
  verif::observer = nullptr;
  quiet.restore();
  std::cout << "{\"n\":" << n << ",\"M\":" << hx(M) << ",\"far\":" << hx(far) << ",\"crossed\":" << crossed << ",\"accepted\":" << list(accepted) << ",\"rejected\":" << list(rejected)
            << ",\"capture\":" << list(real[0]) << ",\"scatter\":" << list(real[1]) << ",\"fission\":" << list(real[2]) << ",\"bad\":[";
  bool f = true;
  for (auto& b : bad) { std::cout << (f ? "" : ",") << js(b); f = false; }
  std::cout << "]}\n";
}
