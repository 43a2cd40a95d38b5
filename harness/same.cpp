// same < script > records
// "load <id> <file>" creates a problem, "solve <id> <label>" simulates it,
// "drop <id>" forgets it.  Prints a digest of every history and the results.
// "count 1": only which histories were started and recorded, by thread.
#include "common.hpp"
#include "Driver.hpp"
#include "Verif.hpp"
#include <algorithm>
#include <cstring>
#include <mutex>
#include <thread>

namespace {
struct Entry { unsigned long long seed; std::string digest; int thread; bool begun; };
std::mutex mtx;
std::vector<Entry> all;
int threadsSeen = 0;
bool countOnly = false, pace = false;
struct Local {
  std::vector<Entry> mine;
  int id;
  std::uint64_t a = 0, b = 0;
  unsigned long long seed = 0;
  long extra = 0;   // commits without a history
  bool open = false;
  Local() { std::lock_guard<std::mutex> g(mtx); id = ++threadsSeen; }
  ~Local() { std::lock_guard<std::mutex> g(mtx); all.insert(all.end(), mine.begin(), mine.end()); }
  void mix(std::uint64_t v) {
    a = (a ^ v) * 0x9e3779b97f4a7c15ull; a ^= a >> 29;
    b = (b + v) * 0xbf58476d1ce4e5b9ull; b ^= b >> 32;
  }
  void mix(double v) { std::uint64_t u; std::memcpy(&u, &v, 8); mix(u); }
  void state(const Particle& p) {
    for (int i = 0; i < 3; i++) { mix(comp(p.GetPosition(), i)); mix(comp(p.GetDirection(), i)); }
    if (std::holds_alternative<Group>(p.GetEnergy())) mix(static_cast<std::uint64_t>(std::get<Group>(p.GetEnergy())));
    else mix(std::get<ContinuousEnergy>(p.GetEnergy()));
    mix(static_cast<std::uint64_t>(p.event));
    mix(static_cast<std::uint64_t>(p.GetType() == Particle::Type::photon));
    // surfaces by name
    if (p.current_surface) for (char c : p.current_surface->name) mix(static_cast<std::uint64_t>(c));
  }
};
thread_local std::unique_ptr<Local> local;
Local& me() { if (!local) local = std::make_unique<Local>(); return *local; }
struct Rec : verif::Observer {
  void OnSourceSample(std::uint64_t s) override {
    auto& l = me();
    if (l.open) l.mine.push_back({l.seed, "unrecorded", l.id, true});
    l.seed = s; l.a = l.b = 1; l.open = true;
    if (pace) std::this_thread::yield();
  }
  void OnTransportBegin(const Particle& p) override { if (countOnly) return; auto& l = me(); l.mix(std::uint64_t{77}); l.state(p); }
  void OnTransportEnd(const Particle&) override { if (!countOnly) me().mix(std::uint64_t{99}); }
  void OnScore(const Particle& p) override { if (!countOnly) me().state(p); }
  void OnBankSecondary(const Particle&, const Particle& s) override { if (!countOnly) me().state(s); }
  void OnCommitHistory() override {
    auto& l = me();
    if (!l.open) { l.mine.push_back({l.seed, "recorded twice", l.id, false}); return; }
    char b[40];
    std::snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)l.a, (unsigned long long)l.b);
    l.mine.push_back({l.seed, countOnly ? "" : b, l.id, true});
    l.open = false;
  }
};
}

int main() {
  std::map<std::string, std::unique_ptr<Driver>> d;
  Tokens t{std::cin};
  std::string c;
  Quiet quiet;
  std::ostringstream out;
  Rec rec;
  while (t.next(c)) {
    if (c == "load") { const auto id = t.str(); auto f = t.str(); verif::observer = nullptr; d[id] = Driver::Create(f); }
    else if (c == "drop") d.erase(t.str());
    else if (c == "count") countOnly = t.integer();
    else if (c == "pace") pace = t.integer();
    else if (c == "solve") {
      const auto id = t.str(); const auto label = t.str();
      all.clear(); threadsSeen = 0; local.reset();
      verif::observer = &rec;
      const auto r = d.at(id)->Solve();
      verif::observer = nullptr;
      local.reset();
      std::stable_sort(all.begin(), all.end(), [](auto& x, auto& y) { return x.seed < y.seed; });
      out << "{\"t\":\"run\",\"label\":" << js(label) << ",\"id\":" << js(id);
      if (countOnly) {
        unsigned long long lo = ~0ull, hi = 0; long dup = 0, odd = 0, n = 0;
        std::map<int, std::pair<long, long>> per;
        for (size_t i = 0; i < all.size(); i++) {
          auto& e = all[i];
          if (!e.digest.empty()) { odd++; continue; }
          n++;
          lo = std::min(lo, e.seed); hi = std::max(hi, e.seed);
          if (i && all[i - 1].digest.empty() && all[i - 1].seed == e.seed) dup++;
        }
        out << ",\"n\":" << n << ",\"dup\":" << dup << ",\"odd\":" << odd << ",\"lo\":\"" << (n ? lo : 0) << "\",\"hi\":\"" << hi << "\",\"threads\":" << threadsSeen;
        if (all.size() <= 400) {
          // the order in which each thread took its histories
          out << ",\"took\":[";
          bool first = true;
          for (auto& e : all) { out << (first ? "" : ",") << "[" << e.thread << ",\"" << e.seed << "\"]"; first = false; }
          out << "]";
        }
      } else {
        out << ",\"hist\":[";
        for (size_t i = 0; i < all.size(); i++) out << (i ? "," : "") << "[\"" << all[i].seed << "\",\"" << all[i].digest << "\"]";
        out << "]";
      }
      out << ",\"text\":" << js(r.to_string()) << "}\n";
    }
  }
  quiet.restore();
  std::cout << out.str();
}
