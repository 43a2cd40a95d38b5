// geom input.xml < queries > answers
// queries: "sig <n> <signature>..." , "surf <n> <name>...", then
//   loc x y z exact | ray x y z u v w exact
#include "common.hpp"
#include "World.hpp"
#include "XMLDocument.hpp"
#include <stdexcept>

int main(int, char** argv) {
  XMLDocument doc{argv[1]};
  const World w{doc.root};
  Tokens t{std::cin};
  std::vector<std::string> sigs;
  std::vector<std::shared_ptr<const CSGSurface>> surfs;
  std::string c;
  const auto index = [&](const Point& p, const Cell*& cell) -> int {
    try {
      cell = &w.FindCellContaining(p);
    } catch (const std::runtime_error&) {
      cell = nullptr;
      return 0;
    }
    const auto s = signature(*cell);
    for (size_t i = 0; i < sigs.size(); i++)
      if (sigs[i] == s) return i + 1;
    return -1;
  };
  while (t.next(c)) {
    if (c == "sig") { sigs.resize(t.integer()); for (auto& s : sigs) s = t.str(); }
    else if (c == "surf") {
      surfs.resize(t.integer());
      for (auto& s : surfs) s = w.FindSurfaceByName(t.str());
    }
    else if (c == "loc") {
      const auto p = t.point();
      const auto ex = t.str();
      const Cell* cell = nullptr;
      std::cout << "{\"t\":\"loc\",\"p\":" << pt(p) << ",\"cell\":" << index(p, cell) << ",\"contains\":[";
      for (size_t i = 0; i < surfs.size(); i++) std::cout << (i ? "," : "") << (surfs[i]->Contains(p) ? "true" : "false");
      std::cout << "],\"exact\":" << (ex == "1" ? "true" : "false") << "}\n";
    }
    else if (c == "ray") {
      const auto p = t.point();
      const double u = t.num(), v = t.num(), ww = t.num();
      const Direction d{u, v, ww};
      const auto ex = t.str();
      const Cell* cell = nullptr;
      const int ci = index(p, cell);
      std::cout << "{\"t\":\"ray\",\"p\":" << pt(p) << ",\"d\":" << pt(d) << ",\"cell\":" << ci << ",\"dist\":[";
      for (size_t i = 0; i < surfs.size(); i++) std::cout << (i ? "," : "") << hx(surfs[i]->Distance(p, d));
      std::cout << "]";
      int near = 0;
      double nd = 0;
      if (cell) {
        const auto [s, dist] = cell->NearestSurface(p, d);
        for (size_t i = 0; i < surfs.size(); i++) if (surfs[i] == s) near = i + 1;
        nd = dist;
      }
      std::cout << ",\"near\":" << hx(nd) << ",\"nears\":" << near << ",\"exact\":" << (ex == "1" ? "true" : "false") << "}\n";
    }
    else return 91;
  }
}
