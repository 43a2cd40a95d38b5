// tables < script > records. script lines:
//   set file D n (index...)... m (key...)...   all entries, given indices, nested lookups
//   cdf n (cumulative value)... k (draw as 64-bit integer)...
#include "common.hpp"
#include "ContinuousMap.hpp"
#include "HDF5DataSet.hpp"
#include <stdexcept>

namespace {
std::uint64_t next_draw = 0;
#if MINIMC_VERIF == 2
std::uint_fast64_t draw(verif::ScriptedEngine&) { return next_draw; }
#endif
template <size_t D, size_t... I> double at(const HDF5DataSet<D>& s, const std::vector<size_t>& i, std::index_sequence<I...>) { return s.at(i[I]...); }
template <typename M, size_t... I> double look(const M& m, const std::vector<double>& k, std::index_sequence<I...>) { return m.at(k[I]...); }
void list(const std::vector<double>& v) {
  std::cout << "[";
  for (size_t i = 0; i < v.size(); i++) std::cout << (i ? "," : "") << hx(v[i]);
  std::cout << "]";
}
template <size_t D> void run(Tokens& t, const std::string& file) {
  const auto n = t.integer();
  std::vector<std::vector<size_t>> idx(n, std::vector<size_t>(D));
  for (auto& i : idx) for (auto& x : i) x = t.integer();
  const auto m = t.integer();
  std::vector<std::vector<double>> keys(m, std::vector<double>(D));
  for (auto& k : keys) for (auto& x : k) x = t.num();
  HDF5DataSet<D> s{file};
  auto map = s.ToContinuousMap();
  std::cout << "{\"t\":\"set\",\"axes\":[";
  for (size_t d = 0; d < D; d++) { std::cout << (d ? "," : ""); list(s.GetAxis(d)); }
  std::cout << "],\"at\":[";
  bool first = true;
  for (auto& i : idx) {
    std::cout << (first ? "" : ",") << "[[";
    first = false;
    for (size_t d = 0; d < D; d++) std::cout << (d ? "," : "") << i[d] + 1;
    std::cout << "],";
    try {
      const double v = at(s, i, std::make_index_sequence<D>{});
      std::cout << hx(v) << ",true";
    } catch (const std::out_of_range&) {
      std::cout << "\"0x0p+0\",false";
    }
    std::cout << "]";
  }
  std::cout << "],\"look\":[";
  first = true;
  for (auto& k : keys) {
    std::cout << (first ? "" : ",") << "[";
    first = false;
    list(k);
    std::cout << "," << hx(look(map, k, std::make_index_sequence<D>{})) << "]";
  }
  std::cout << "]}\n";
}
}

int main() {
  Tokens t{std::cin};
  std::string c;
  while (t.next(c)) {
    if (c == "set") {
      const auto f = t.str();
      switch (t.integer()) {
      case 1: run<1>(t, f); break;
      case 2: run<2>(t, f); break;
      case 3: run<3>(t, f); break;
      case 4: run<4>(t, f); break;
      }
    }
#if MINIMC_VERIF == 2
    else if (c == "cdf") {
      verif::ScriptedEngine::draw = draw;
      const auto n = t.integer();
      std::map<Real, int> m;
      std::vector<double> cum(n);
      for (int i = 0; i < n; i++) m[cum[i] = t.num()] = i + 1;
      CDF<int> cdf{std::move(m)};
      std::cout << "{\"t\":\"cdf\",\"cum\":";
      list(cum);
      std::cout << ",\"draws\":[";
      const auto k = t.integer();
      for (int i = 0; i < k; i++) {
        next_draw = std::strtoull(t.str().c_str(), nullptr, 10);
        RNG rng{1};
        const double u = std::uniform_real_distribution{}(rng);
        RNG again{1};
        std::cout << (i ? "," : "") << "[" << hx(u) << "," << cdf.Sample(again) << "]";
      }
      std::cout << "]}\n";
    }
#endif
  }
}
