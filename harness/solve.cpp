// solve input.xml < names > records
// stdin: "sig <n> <signature>...", "surf <n> <name>...", "pert <n> <name>...", "solves <k>", "zero <k>"
// Runs the problem and prints, per history in order of seed, everything the
// particles of that history did, then the printed results.
#include "common.hpp"
#include "Driver.hpp"
#include "Material.hpp"
#include "Perturbation.hpp"
#include "Verif.hpp"
#include "World.hpp"
#include <iterator>
#include <algorithm>
#include <mutex>
#include <set>
#include <thread>

struct Peek : Driver {
  static const World& getWorld(const Driver& d) { return d.*(&Peek::world); }
  static const PerturbationSet& perts(const Driver& d) { return d.*(&Peek::perturbations); }
};

namespace {
std::vector<std::string> sigs, surfs, perts;
std::vector<const Perturbation*> pertPtrs;
std::mutex mtx;
std::vector<std::pair<unsigned long long, std::string>> histories;
thread_local std::string buf, secs, pending;
thread_local unsigned long long seed;
thread_local std::map<const Cell*, int> cellIdx;

#if MINIMC_VERIF == 2
// a good generator (splitmix64) whose state is the engine's own, so that
// copies of an engine repeat themselves; all numbers are logged
thread_local std::string draws;
thread_local std::set<std::uint64_t> usedDraws;
thread_local int dups = 0;
std::uint64_t zeroEvery = 0;
std::uint_fast64_t draw(verif::ScriptedEngine& e) {
  std::uint64_t z = (e.seed += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  z ^= z >> 31;
  // now and then the least possible number; which may also become the seed of
  // a secondary, to whom it does not happen again (and again and again)
  if (zeroEvery && (z >> 7) % zeroEvery == 0 && e.seed * 0xf1de83e19937733dull > 1000000) z = 0;
  else if (!usedDraws.insert(z).second && !zeroEvery) dups++;   // (zero may be a seed)
  if (!draws.empty()) draws += ",";
  draws += hx(static_cast<double>(z) * 0x1p-64);
  return z;
}
std::string takeDraws() {
  auto r = ",\"u\":[" + draws + "],\"dup\":" + std::to_string(dups);
  draws.clear();
  dups = 0;
  return r;
}
#else
std::string takeDraws() { return ",\"u\":[],\"dup\":0"; }
#endif

int cellOf(const Particle& p) {
  const Cell* c;
  try { c = &p.GetCell(); } catch (...) { return 0; }
  auto it = cellIdx.find(c);
  if (it != cellIdx.end()) return it->second;
  const auto s = signature(*c);
  int r = -1;
  for (size_t i = 0; i < sigs.size(); i++) if (sigs[i] == s) r = i + 1;
  return cellIdx[c] = r;
}
// majorant for a particle where it is
const World* theWorld = nullptr;
std::string majorant(const Particle& p, bool find) {
  Particle q{p};
  if (find) q.SetCell(theWorld->FindCellContaining(q.GetPosition(), q.GetDirection()));
  if (cellOf(q) == 0 || !q.GetCell().material) return "0";
  return hx(q.GetCell().material->GetMicroscopicMajorant(q));
}
int surfOf(const Particle& p) {
  if (!p.current_surface) return 0;
  for (size_t i = 0; i < surfs.size(); i++) if (surfs[i] == p.current_surface->name) return i + 1;
  return -1;
}
std::string state(const Particle& p, bool effects) {
  std::string r = "\"p\":" + pt(p.GetPosition()) + ",\"d\":" + pt(p.GetDirection()) + ",\"g\":" + energy(p.GetEnergy()) +
    ",\"ty\":\"" + (p.GetType() == Particle::Type::neutron ? "neutron" : "photon") + "\",\"c\":" + std::to_string(cellOf(p)) + ",\"s\":" + std::to_string(surfOf(p));
  if (effects) {
    r += ",\"ie\":[";
    for (size_t i = 0; i < pertPtrs.size(); i++) {
      double v = std::nan("");
      try { v = p.GetIndirectEffect(pertPtrs[i]); } catch (...) {}
      r += (i ? "," : "") + hx(v);
    }
    r += "]";
  }
  return r;
}
// a history which goes on for ever: print its beginning and give up
thread_local long nev = 0;
long maxEvents = 200000;
std::string prefix;
std::ostringstream out;
Quiet* old;
void endless() {
  std::lock_guard<std::mutex> g(mtx);
  size_t at = 0;
  for (int i = 0; i < 60 && at != std::string::npos; i++) at = buf.find('\n', at + 1);
  old->restore();
  std::cout << out.str() << "{\"t\":\"solve\"}\n" << buf.substr(0, at + 1) << "{\"t\":\"endless\"}" << std::endl;
  std::_Exit(0);
}
struct Rec : verif::Observer {
  void OnSourceSample(std::uint64_t s) override { 
    seed = s; nev = 0; buf.clear(); secs.clear(); takeDraws();
#if MINIMC_VERIF == 2
    usedDraws.clear();
#endif
    buf += "{\"t\":\"hist\",\"seed\":\"" + std::to_string(s) + "\"}\n"; }
  void flush() { if (!secs.empty()) { buf += "{\"t\":\"stray\"}\n"; secs.clear(); } }
  void OnTransportBegin(const Particle& p) override { flush(); buf += "{\"t\":\"begin\"," + state(p, true) + ",\"m\":" + majorant(p, true) + takeDraws() + "}\n"; }
  void OnTransportEnd(const Particle& p) override { flush(); buf += std::string("{\"t\":\"end\",\"e\":\"") + eventName(p.event) + "\"}\n"; }
  void OnScore(const Particle& p) override {
    if (++nev > maxEvents) endless();
    buf += std::string("{\"t\":\"ev\",\"e\":\"") + eventName(p.event) + "\"," + state(p, true) + ",\"m\":" + majorant(p, false) + ",\"sec\":[" + secs + "]" + takeDraws() + "}\n";
    secs.clear();
  }
  void OnBankSecondary(const Particle&, const Particle& s) override { if (!secs.empty()) secs += ","; secs += "{" + state(s, false) + "}"; }
  void OnCommitHistory() override {
    flush();
    buf += "{\"t\":\"commit\"}\n";
    std::lock_guard<std::mutex> g(mtx);
    histories.emplace_back(seed, buf);
    buf.clear();
  }
};
}

int main(int, char** argv) {
  Tokens t{std::cin};
  std::string c;
  int solves = 1;
  while (t.next(c)) {
    if (c == "solves") { solves = t.integer(); continue; }
    if (c == "zero") {
      [[maybe_unused]] const auto k = t.integer();
#if MINIMC_VERIF == 2
      zeroEvery = k;
#endif
      continue;
    }
    auto& v = c == "sig" ? sigs : c == "surf" ? surfs : perts;
    v.resize(t.integer());
    for (auto& s : v) s = t.str();
  }
  Quiet quiet; old = &quiet;
  auto driver = Driver::Create(argv[1]);
  for (const auto& n : perts) pertPtrs.push_back(&Peek::perts(*driver).FindPerturbationByName(n));
#if MINIMC_VERIF == 2
  verif::ScriptedEngine::draw = draw;
#endif
  theWorld = &Peek::getWorld(*driver);
  Rec rec;
  verif::observer = &rec;
  for (int i = 0; i < solves; i++) {
    histories.clear();
    auto r = driver->Solve();
    std::stable_sort(histories.begin(), histories.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
    out << "{\"t\":\"solve\"}\n";
    for (const auto& h : histories) out << h.second;
    out << "{\"t\":\"report\",\"text\":" << js(r.to_string()) << "}\n";
  }
  verif::observer = nullptr;
  quiet.restore();
  std::cout << out.str();
}
