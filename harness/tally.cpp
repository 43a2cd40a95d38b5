// tally input.xml order.xml < script > records
// Executes behaviours on sets of results. script:
//   surf <n> <name>...  pert <n> <name>...  weight <w>
//   part <event> <surface or 0> dx dy dz <group> <type> <cell> <k> <distance>...
//   ops <n> (<op> <a> <b>)...
// order.xml is the same problem with its results in another order; the second
// set is made from it.
#include "common.hpp"
#include "Driver.hpp"
#include "XMLDocument.hpp"
#include "pugixml.hpp"

struct Peek : Driver {
  static const PerturbationSet& perts(const Driver& d) { return d.*(&Peek::perturbations); }
  static const World& world_(const Driver& d) { return d.*(&Peek::world); }
};

int main(int, char** argv) {
  Quiet quiet;
  auto driver = Driver::Create(argv[1]);
  const World& world = Peek::world_(*driver);
  const PerturbationSet& perts = Peek::perts(*driver);
  XMLDocument doc[2] = {XMLDocument{argv[1]}, XMLDocument{argv[2]}};
  std::vector<std::string> surfs, pertNames;
  std::vector<Particle> parts;
  double weight = 1;
  std::ostringstream out;
  Tokens t{std::cin};
  std::string c;
  while (t.next(c)) {
    if (c == "surf") { surfs.resize(t.integer()); for (auto& s : surfs) s = t.str(); }
    else if (c == "pert") { pertNames.resize(t.integer()); for (auto& s : pertNames) s = t.str(); }
    else if (c == "weight") weight = t.num();
    else if (c == "part") {
      const auto ev = t.str();
      const auto s = t.integer();
      const auto d = t.point();
      const auto g = t.integer();
      const auto ty = t.str();
      const auto cell = t.integer();
      Particle p{Point{0, 0, 0}, Direction{d}, Group(g), Particle::ToType(ty), 1};
      p.SetPerturbations(perts);
      p.SetCell(world.cells.at(cell));
      for (auto k = t.integer(); k > 0; k--) p.Stream(t.num());
      for (auto e : {Particle::Event::birth, Particle::Event::scatter, Particle::Event::capture, Particle::Event::fission, Particle::Event::surface_cross, Particle::Event::leak, Particle::Event::virtual_collision})
        if (ev == eventName(e)) p.event = e;
      if (s) p.current_surface = world.FindSurfaceByName(surfs.at(s - 1));
      out << "{\"t\":\"part\",\"e\":\"" << eventName(p.event) << "\",\"s\":" << s << ",\"d\":" << pt(p.GetDirection()) << ",\"g\":" << energy(p.GetEnergy()) << ",\"ie\":[";
      for (size_t i = 0; i < pertNames.size(); i++) out << (i ? "," : "") << hx(p.GetIndirectEffect(&perts.FindPerturbationByName(pertNames[i])));
      out << "]}\n";
      parts.push_back(p);
    }
    else if (c == "ops") {
      std::map<int, std::unique_ptr<EstimatorSet>> sets;
      for (int a = 1; a <= 2; a++)
        sets[a] = std::make_unique<EstimatorSet>(doc[a - 1].root.child("estimators"), world, perts, weight);
      std::map<int, std::unique_ptr<EstimatorSetProxy>> open;
      for (auto n = t.integer(); n > 0; n--) {
        const auto op = t.str();
        const int a = t.integer(), b = t.integer();
        if (op == "proxy") open[a] = std::make_unique<EstimatorSetProxy>(sets.at(b)->GetProxy());
        else if (op == "score") open.at(a)->Score(parts.at(b - 1));
        else if (op == "commit") { open.at(a)->CommitHistory(); open.erase(a); }
        else if (op == "copy") sets[b] = std::make_unique<EstimatorSet>(*sets.at(a));
        else if (op == "merge") *sets.at(a) += *sets.at(b);
      }
      out << "{\"t\":\"ops\",\"text\":[" << js(sets.at(1)->to_string()) << "," << js(sets.at(2)->to_string()) << "]}\n";
    }
  }
  quiet.restore();
  std::cout << out.str();
}
