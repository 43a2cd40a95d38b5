// xs input.xml < queries > answers
// queries: "sig <n> <signature>...", "nuc <n> <name>...", then
//   at x y z energy type      energy: a number, or g<group>
#include "common.hpp"
#include "Material.hpp"
#include "Nuclide.hpp"
#include "ScalarField.hpp"
#include "TransportMethod.hpp"
#include "World.hpp"
#include "XMLDocument.hpp"
#include <stdexcept>

int main(int, char** argv) {
  XMLDocument doc{argv[1]};
  const World w{doc.root};
  std::unique_ptr<const TransportMethod> method;
  try {
    method = TransportMethod::Create(doc.root, w);
  } catch (const std::runtime_error&) {
  }
  std::cout << "{\"t\":\"tracking\",\"ok\":" << (method ? "true" : "false") << "}\n";
  Tokens t{std::cin};
  std::vector<std::string> sigs, nucs;
  std::string c;
  while (t.next(c)) {
    if (c == "sig") { sigs.resize(t.integer()); for (auto& s : sigs) s = t.str(); }
    else if (c == "nuc") { nucs.resize(t.integer()); for (auto& s : nucs) s = t.str(); }
    else if (c == "at") {
      const auto p = t.point();
      const auto e = t.str(), ty = t.str();
      const Energy E = e[0] == 'g' ? Energy{Group{std::stoull(e.substr(1))}} : Energy{ContinuousEnergy{std::strtod(e.c_str(), nullptr)}};
      Particle q{p, Direction{1, 0, 0}, E, Particle::ToType(ty), 1};
      const Cell& cell = w.FindCellContaining(p);
      q.SetCell(cell);
      const auto s = signature(cell);
      int ci = -1;
      for (size_t i = 0; i < sigs.size(); i++) if (sigs[i] == s) ci = i + 1;
      std::cout << "{\"t\":\"at\",\"p\":" << pt(p) << ",\"E\":" << energy(E) << ",\"ty\":\"" << ty << "\",\"c\":" << ci << ",\"T\":" << hx(cell.temperature->at(p))
                << ",\"lo\":" << hx(cell.temperature->lower_bound) << ",\"up\":" << hx(cell.temperature->upper_bound) << ",\"comps\":[";
      const auto& m = *cell.material;
      bool first = true;
      for (const auto& [n, a] : m.afracs) {
        int ni = 0;
        for (size_t i = 0; i < nucs.size(); i++) if (nucs[i] == n->name) ni = i + 1;
        std::cout << (first ? "" : ",") << "[" << ni << "," << hx(a) << "," << hx(n->GetTotal(q)) << "," << hx(n->GetMajorant(q)) << "]";
        first = false;
      }
      std::cout << "],\"mt\":" << hx(m.GetMicroscopicTotal(q)) << ",\"mm\":" << hx(m.GetMicroscopicMajorant(q)) << ",\"aden\":" << hx(m.number_density)
                << ",\"pd\":" << (method ? hx(method->GetCollisionProbabilityDensity(q)) : "\"0x0p+0\"") << "}\n";
    }
  }
}
