// input < script > records
// script lines "<file> <0|1>": tries to create the problem (and simulate it)
// in a process of its own.
#include "common.hpp"
#include "Driver.hpp"
#include "Verif.hpp"
#include <atomic>
#include <cstring>
#include <exception>
#include <functional>
#include <signal.h>
#include <sys/wait.h>

namespace {
struct Shared { std::atomic<long> began; std::atomic<int> stage; };
struct Rec : verif::Observer {
  std::atomic<long> n{0};
  void OnSourceSample(std::uint64_t) override { n++; }
};
void say(int fd, const std::string& s) { if (write(fd, s.data(), s.size()) < 0) _exit(9); }
}

int main() {
  std::string file;
  int solve;
  std::vector<std::pair<std::string, int>> jobs;
  while (std::cin >> file >> solve) jobs.push_back({file, solve});
  for (auto& j : jobs) {
    int fd[2];
    if (pipe(fd)) return 2;
    std::cout.flush();
    const pid_t child = fork();
    if (child == 0) {
      close(fd[0]);
      const int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1); dup2(nul, 2);
      alarm(j.second ? 40 : 10);
      Rec rec;
      verif::observer = &rec;
      std::unique_ptr<Driver> d;
      std::string outcome = "ok";
      try { d = Driver::Create(j.first); }
      catch (const std::exception&) { outcome = "exception"; }
      catch (...) { outcome = "other exception"; }
      say(fd[1], "{\"began\":" + std::to_string(rec.n) + ",\"out\":\"" + outcome + "\"");
      if (outcome == "ok" && j.second) {
        say(fd[1], ",");
        std::string s = "ok", text;
        try { text = d->Solve().to_string(); }
        catch (...) { s = "exception"; }
        say(fd[1], "\"histories\":" + std::to_string(rec.n) + ",\"solved\":\"" + s + "\",\"digest\":\"" + std::to_string(std::hash<std::string>{}(text)) + "\"");
      }
      say(fd[1], "}");
      _exit(0);
    }
    close(fd[1]);
    std::string r;
    char b[4096];
    ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n);
    close(fd[0]);
    int st = 0;
    waitpid(child, &st, 0);
    const std::string end = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : "crash") : WEXITSTATUS(st) ? "crash" : "";
    if (r.empty()) r = "{\"began\":0,\"out\":\"" + (end.empty() ? std::string("crash") : end) + "\"}";
    else if (r.back() == ',') r += "\"histories\":0,\"solved\":\"" + end + "\",\"digest\":\"\"}";
    std::cout << r << "\n";
  }
}
