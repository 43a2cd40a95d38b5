// stats input.xml < names > records
// Runs the problem and prints how often each outcome of a collision occurred,
// per region, particle type and energy group before the collision.
#include "common.hpp"
#include "Driver.hpp"
#include "Verif.hpp"
#include "World.hpp"
#include <mutex>
#include <thread>

struct Peek : Driver {
  static const World& getWorld(const Driver& d) { return d.*(&Peek::world); }
};

namespace {
const World* theWorld = nullptr;
std::vector<std::string> sigs;
std::mutex mtx;
#if MINIMC_VERIF == 2
std::uint_fast64_t draw(verif::ScriptedEngine& e) {
  std::uint64_t z = (e.seed += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
#endif
constexpr int B = 8;    // cells of histograms of uniform quantities
constexpr int D = 12;   // bins of distance
using Hist = std::vector<long>;
int cell(double u) { return u < 0 ? 0 : u >= 1 ? B - 1 : static_cast<int>(u * B); }
struct Dirs {
  Hist x = Hist(B), y = Hist(B), z = Hist(B), mu = Hist(B), phi = Hist(B), joint = Hist(B * B);
  Fine fx, fy, fz, fmu, fphi;
  // direction d relative to a reference direction r
  void add(const Point& d, const Point& r) {
    x[cell((comp(d, 0) + 1) / 2)]++;
    y[cell((comp(d, 1) + 1) / 2)]++;
    z[cell((comp(d, 2) + 1) / 2)]++;
    const double m = d.Dot(r);
    // any fixed frame around r
    double a[3] = {comp(r, 0), comp(r, 1), comp(r, 2)};
    int k = 0;
    for (int i = 1; i < 3; i++) if (std::fabs(a[i]) < std::fabs(a[k])) k = i;
    double e[3] = {0, 0, 0}; e[k] = 1;
    double e1[3], n = 0;
    for (int i = 0; i < 3; i++) { e1[i] = e[i] - a[k] * a[i]; n += e1[i] * e1[i]; }
    for (int i = 0; i < 3; i++) e1[i] /= std::sqrt(n);
    double e2[3] = {a[1] * e1[2] - a[2] * e1[1], a[2] * e1[0] - a[0] * e1[2], a[0] * e1[1] - a[1] * e1[0]};
    const double f = (std::atan2(d.Dot(Point{e2[0], e2[1], e2[2]}), d.Dot(Point{e1[0], e1[1], e1[2]})) + M_PI) / (2 * M_PI);
    fx.add((comp(d, 0) + 1) / 2); fy.add((comp(d, 1) + 1) / 2); fz.add((comp(d, 2) + 1) / 2); fmu.add((m + 1) / 2); fphi.add(f);
    mu[cell((m + 1) / 2)]++;
    phi[cell(f)]++;
    joint[cell((m + 1) / 2) * B + cell(f)]++;
  }
  void operator+=(const Dirs& o) {
    auto add = [](Hist& a, const Hist& b) { for (size_t i = 0; i < a.size(); i++) a[i] += b[i]; };
    add(x, o.x); add(y, o.y); add(z, o.z); add(mu, o.mu); add(phi, o.phi); add(joint, o.joint);
    fx += o.fx; fy += o.fy; fz += o.fz; fmu += o.fmu; fphi += o.fphi;
  }
  std::string fine() const { return "[" + fx.json() + "," + fy.json() + "," + fz.json() + "," + fmu.json() + "," + fphi.json() + "]"; }
};
struct Counts {
  long n = 0;
  std::map<std::string, long> ev;
  std::map<int, long> to;                       // outgoing group of scatters
  std::map<std::vector<int>, long> yield;       // number, first and second group
  std::map<int, Hist> toMu;                     // cosine by outgoing group
  double path[D] = {};                          // distance flown, by distance since the last event
  long stops[D] = {};                           // collisions there
  Dirs scatter, secondary;
  Hist between = Hist(B), apart = Hist(B);      // cosine between a secondary and the next, the one after
  std::map<std::vector<int>, long> sibs;        // index of a secondary, its group and that of the next
  std::map<int, Hist> secTo;                    // direction of secondaries by their group
};
using Key = std::tuple<int, int, long>;
std::map<Key, Counts> total;
Dirs sourceDirs;
Hist sourceFlux = Hist(B), sourceFluxPhi = Hist(B);
long nsource = 0;
Point ref{1, 0, 0};
double unit = 1;   // width of a distance bin

struct Local {
  std::map<Key, Counts> c;
  Dirs src; long nsrc = 0; Hist flux = Hist(B);
  bool atSource = false, have = false;
  Point pos, dir; long g = 0; int ty = 0; int cell_ = 0;
  std::vector<std::pair<int, Point>> secs;
  std::map<const Cell*, int> idx;
  ~Local() {
    std::lock_guard<std::mutex> l(mtx);
    for (auto& [k, v] : c) {
      auto& t = total[k];
      t.n += v.n;
      for (auto& [a, b] : v.ev) t.ev[a] += b;
      for (auto& [a, b] : v.to) t.to[a] += b;
      for (auto& [a, b] : v.yield) t.yield[a] += b;
      for (auto& [a, b] : v.toMu) { auto& h = t.toMu[a]; h.resize(B); for (int i = 0; i < B; i++) h[i] += b[i]; }
      for (int i = 0; i < D; i++) { t.path[i] += v.path[i]; t.stops[i] += v.stops[i]; }
      t.scatter += v.scatter; t.secondary += v.secondary;
      for (int i = 0; i < B; i++) t.between[i] += v.between[i], t.apart[i] += v.apart[i];
      for (auto& [a, b] : v.sibs) t.sibs[a] += b;
      for (auto& [a, b] : v.secTo) { auto& h = t.secTo[a]; h.resize(B); for (int i = 0; i < B; i++) h[i] += b[i]; }
    }
    sourceDirs += src; nsource += nsrc;
    for (int i = 0; i < B; i++) sourceFlux[i] += flux[i];
  }
  int cellOf(const Particle& p) {
    const Cell* q;
    try { q = &p.GetCell(); } catch (...) { return 0; }
    auto it = idx.find(q);
    if (it != idx.end()) return it->second;
    const auto s = signature(*q);
    int r = 0;
    for (size_t i = 0; i < sigs.size(); i++) if (sigs[i] == s) r = i + 1;
    return idx[q] = r;
  }
  void keep(const Particle& p) {
    have = true; pos = p.GetPosition(); dir = p.GetDirection(); ty = p.GetType() == Particle::Type::neutron ? 0 : 1;
    g = std::get<Group>(p.GetEnergy()); cell_ = cellOf(p);
  }
};
thread_local std::unique_ptr<Local> local;
Local& me() { if (!local) local = std::make_unique<Local>(); return *local; }

struct Rec : verif::Observer {
  void OnSourceSample(std::uint64_t) override { me().atSource = true; me().secs.clear(); }
  void OnTransportBegin(const Particle& p) override {
    auto& l = me();
    // the region in which the particle begins, which its parent may not have been headed to
    Particle q{p};
    q.SetCell(theWorld->FindCellContaining(q.GetPosition(), q.GetDirection()));
    l.keep(q);
    if (l.atSource) {
      l.atSource = false;
      l.nsrc++;
      l.src.add(p.GetDirection(), ref);
      const double m = p.GetDirection().Dot(ref);
      l.flux[m < 0 ? 0 : cell(m * m)]++;
    }
    l.secs.clear();
  }
  void OnTransportEnd(const Particle&) override { me().have = false; }
  void OnScore(const Particle& p) override {
    auto& l = me();
    if (!l.have) return;
    auto& c = l.c[{l.cell_, l.ty, l.g}];
    Point step = p.GetPosition() - l.pos;
    double t = std::sqrt(step.Dot(step));
    const bool hit = p.event == Particle::Event::capture || p.event == Particle::Event::scatter || p.event == Particle::Event::fission;
    for (int i = 0; i < D; i++) {
      const double lo = i * unit, hi = i == D - 1 ? INFINITY : (i + 1) * unit;
      if (t <= lo) break;
      c.path[i] += std::min(t, hi) - lo;
      if (hit && t < hi) c.stops[i]++;
    }
    if (hit) {
      c.n++;
      c.ev[eventName(p.event)]++;
      if (p.event == Particle::Event::scatter) {
        const int h = std::get<Group>(p.GetEnergy());
        c.to[h]++;
        c.scatter.add(p.GetDirection(), l.dir);
        auto& m = c.toMu[h];
        m.resize(B);
        m[cell((p.GetDirection().Dot(l.dir) + 1) / 2)]++;
      }
      if (p.event == Particle::Event::fission) {
        const int k = l.secs.size();
        c.yield[{k, k > 0 ? l.secs[0].first : 0, k > 1 ? l.secs[1].first : 0}]++;
        for (auto& s : l.secs) c.secondary.add(s.second, l.dir);
        for (int i = 0; i < k; i++) {
          const auto& a = l.secs[i];
          c.sibs[{i + 1, a.first, i + 1 < k ? l.secs[i + 1].first : 0}]++;
          auto& h = c.secTo[a.first];
          h.resize(B);
          h[cell((comp(a.second, 2) + 1) / 2)]++;
          if (i + 1 < k) c.between[cell((a.second.Dot(l.secs[i + 1].second) + 1) / 2)]++;
          if (i + 2 < k) c.apart[cell((a.second.Dot(l.secs[i + 2].second) + 1) / 2)]++;
        }
      }
    }
    l.secs.clear();
    l.keep(p);
  }
  void OnBankSecondary(const Particle&, const Particle& s) override { me().secs.emplace_back(std::get<Group>(s.GetEnergy()), s.GetDirection()); }
  void OnCommitHistory() override {}
};
std::string list(const Hist& h) { std::string r = "["; for (size_t i = 0; i < h.size(); i++) r += (i ? "," : "") + std::to_string(h[i]); return r + "]"; }
std::string dirs(const Dirs& d) { return "[" + list(d.x) + "," + list(d.y) + "," + list(d.z) + "," + list(d.mu) + "," + list(d.phi) + "," + list(d.joint) + "]"; }
}

int main(int, char** argv) {
  Tokens t{std::cin};
  std::string c;
  while (t.next(c)) {
    if (c == "sig") { sigs.resize(t.integer()); for (auto& s : sigs) s = t.str(); }
    else if (c == "ref") ref = t.point();
    else if (c == "unit") unit = t.num();
    else { const auto n = t.integer(); for (int i = 0; i < n; i++) t.str(); }
  }
  Quiet quiet;
  auto driver = Driver::Create(argv[1]);
#if MINIMC_VERIF == 2
  verif::ScriptedEngine::draw = draw;
#endif
  theWorld = &Peek::getWorld(*driver);
  Rec rec;
  verif::observer = &rec;
  driver->Solve();
  verif::observer = nullptr;
  local.reset();
  quiet.restore();
  std::cout << "{\"t\":\"source\",\"n\":" << nsource << ",\"dirs\":" << dirs(sourceDirs) << ",\"fine\":" << sourceDirs.fine() << ",\"flux\":" << list(sourceFlux) << "}\n";
  for (const auto& [k, v] : total) {
    std::cout << "{\"t\":\"collisions\",\"c\":" << std::get<0>(k) << ",\"ty\":\"" << (std::get<1>(k) ? "photon" : "neutron") << "\",\"g\":" << std::get<2>(k) << ",\"n\":" << v.n << ",\"ev\":[";
    bool f = true;
    for (auto& [a, b] : v.ev) { std::cout << (f ? "" : ",") << "[\"" << a << "\"," << b << "]"; f = false; }
    std::cout << "],\"to\":["; f = true;
    for (auto& [a, b] : v.to) { std::cout << (f ? "" : ",") << "[" << a << "," << b << "]"; f = false; }
    std::cout << "],\"tomu\":["; f = true;
    for (auto& [a, b] : v.toMu) { std::cout << (f ? "" : ",") << "[" << a << "," << list(b) << "]"; f = false; }
    std::cout << "],\"yield\":["; f = true;
    for (auto& [a, b] : v.yield) { std::cout << (f ? "" : ",") << "[" << a[0] << "," << a[1] << "," << a[2] << "," << b << "]"; f = false; }
    std::cout << "],\"path\":[";
    for (int i = 0; i < D; i++) std::cout << (i ? "," : "") << hx(v.path[i]);
    std::cout << "],\"stops\":[";
    for (int i = 0; i < D; i++) std::cout << (i ? "," : "") << v.stops[i];
    std::cout << "],\"sdirs\":" << dirs(v.scatter) << ",\"sfine\":" << v.scatter.fine() << ",\"ffine\":" << v.secondary.fine() << ",\"fdirs\":" << dirs(v.secondary) << ",\"between\":" << list(v.between) << ",\"apart\":" << list(v.apart) << ",\"sibs\":["; f = true;
    for (auto& [a, b] : v.sibs) { std::cout << (f ? "" : ",") << "[" << a[0] << "," << a[1] << "," << a[2] << "," << b << "]"; f = false; }
    std::cout << "],\"secto\":["; f = true;
    for (auto& [a, b] : v.secTo) { std::cout << (f ? "" : ",") << "[" << a << "," << list(b) << "]"; f = false; }
    std::cout << "]}\n";
  }
}
