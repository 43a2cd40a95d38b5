// bins < script > records. script lines:
//   one <xml of a binning> <n> <value>...      a single binning (xml without blanks is not required: length given)
//   all <length>\n<xml of bins>\n <n> (dx dy dz kind energy)...
#include "common.hpp"
#include "Bins.hpp"
#include "Particle.hpp"
#include "pugixml.hpp"

int main() {
  std::string line;
  std::ostringstream out;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    const auto kind = line.substr(0, 3);
    pugi::xml_document doc;
    doc.load_string(line.substr(4).c_str());
    std::getline(std::cin, line);
    std::istringstream in{line};
    Tokens t{in};
    if (kind == "one") {
      const auto b = Bins::Create(doc.first_child());
      out << "{\"size\":" << b->size() << ",\"text\":" << js(b->to_string()) << ",\"i\":[";
      for (auto n = t.integer(), k = n; n > 0; n--) out << (n < k ? "," : "") << b->GetIndex(t.num());
      out << "]}\n";
    }
    else {
      const ParticleBins b{doc.first_child()};
      out << "{\"size\":" << b.size() << ",\"text\":" << js(b.to_string()) << ",\"pts\":[";
      for (auto n = t.integer(), k = n; n > 0; n--) {
        const Direction d{t.point()};
        const bool group = t.str() == "g";
        const double e = t.num();
        const Particle p{Point{0, 0, 0}, d, group ? Energy{Group(e)} : Energy{ContinuousEnergy{e}}, Particle::Type::neutron, 1};
        out << (n < k ? "," : "") << "{\"d\":" << pt(p.GetDirection()) << ",\"g\":" << energy(p.GetEnergy()) << ",\"i\":" << b.GetIndex(p) << "}";
      }
      out << "]}\n";
    }
  }
  std::cout << out.str();
}
