// h5w < script: writes data files in the layout of a pandas DataFrame.
//   file D (n axis values...) x D  n values...
#include "H5Cpp.h"
#include <iostream>
#include <string>
#include <vector>

static std::vector<double> list(std::istream& in) {
  size_t n;
  in >> n;
  std::vector<double> v(n);
  std::string s;
  for (auto& x : v) { in >> s; x = std::strtod(s.c_str(), nullptr); }
  return v;
}
static void put(H5::Group& g, const std::string& name, const std::vector<double>& v, bool column) {
  const hsize_t dims[2] = {v.size(), 1};
  const H5::DataSpace space(column ? 2 : 1, dims);
  auto d = g.createDataSet(name, H5::PredType::NATIVE_DOUBLE, space);
  if (!v.empty()) d.write(v.data(), H5::PredType::NATIVE_DOUBLE);
}
int main() {
  std::string name;
  while (std::cin >> name) {
    unsigned long long D;
    std::cin >> D;
    H5::H5File f(name, H5F_ACC_TRUNC);
    auto g = f.createGroup("/pandas");
    auto a = g.createAttribute("axis1_nlevels", H5::PredType::NATIVE_ULLONG, H5::DataSpace(H5S_SCALAR));
    a.write(H5::PredType::NATIVE_ULLONG, &D);
    for (unsigned long long i = 0; i < D; i++) put(g, "axis1_level" + std::to_string(i), list(std::cin), false);
    put(g, "block0_values", list(std::cin), true);
  }
}
