// native driver: search for a contract violation, or replay recorded inputs
#include "vf.h"
#include <chrono>
#include <csignal>
#include <exception>
#include <unistd.h>
namespace vf {
Native& N() { static Native n; return n; }
static std::vector<std::pair<std::string, void (*)()>>& regs() { static std::vector<std::pair<std::string, void (*)()>> r; return r; }
Reg::Reg(const char* n, void (*f)()) { regs().push_back({n, f}); }
static std::string cur;
static void dump(FILE* f, const char* why) {
  fprintf(f, "harness %s\nreason %s\nseed %llu\n", cur.c_str(), why, (unsigned long long)N().seed);
  for (auto& kv : N().log) {
    fprintf(f, "input %s", kv.first.c_str());
    for (auto x : kv.second) fprintf(f, " %llu", (unsigned long long)x);
    fprintf(f, "\n");
  }
  fflush(f);
}
static const char* outp = nullptr;
static void crash(const char* why) {
  static bool once = false;
  if (once) return;
  once = true;
  if (outp) { FILE* f = fopen(outp, "w"); if (f) { dump(f, why); fclose(f); } }
  dump(stdout, why);
}
static void on_sig(int s) { crash(s == SIGALRM ? "timeout (no termination)" : "crash signal"); _exit(1); }
}  // namespace vf
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=0:max_allocation_size_mb=2048"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=1"; }
static void deathcb() { vf::crash("sanitizer report (memory or undefined behaviour)"); }
int main(int argc, char** argv) {
  using namespace vf;
  uint64_t seed = 1, trials = 1000000000ULL;
  double secs = 5;
  std::string only, rep;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--seed") seed = strtoull(argv[i + 1], 0, 10);
    if (a == "--secs") secs = atof(argv[i + 1]);
    if (a == "--trials") trials = strtoull(argv[i + 1], 0, 10);
    if (a == "--harness") only = argv[i + 1];
    if (a == "--replay") rep = argv[i + 1];
    if (a == "--out") outp = argv[i + 1];
  }
  signal(SIGSEGV, on_sig); signal(SIGABRT, on_sig); signal(SIGFPE, on_sig); signal(SIGALRM, on_sig);
  std::set_terminate([] { crash("std::terminate / uncaught exception"); _exit(1); });
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(deathcb);
  if (!rep.empty()) {
    FILE* f = fopen(rep.c_str(), "r");
    if (!f) return 3;
    static char buf[1 << 22];
    while (fgets(buf, sizeof buf, f)) {
      char* t = strtok(buf, " \n");
      if (!t) continue;
      if (!strcmp(t, "harness")) { t = strtok(nullptr, " \n"); if (t) only = t; }
      if (!strcmp(t, "seed")) { t = strtok(nullptr, " \n"); if (t) seed = strtoull(t, 0, 10); }
      if (!strcmp(t, "input")) {
        std::string n = strtok(nullptr, " \n");
        std::vector<uint64_t> v;
        while ((t = strtok(nullptr, " \n"))) v.push_back(strtoull(t, 0, 10));
        N().in[n] = v;
      }
    }
    fclose(f);
    trials = 1;
    N().replay = true;
  }
  uint64_t ran = 0, skipped = 0;
  for (auto& r : regs()) {
    if (!only.empty() && r.first != only) continue;
    cur = r.first;
    auto t0 = std::chrono::steady_clock::now();
    double budget = only.empty() ? secs / regs().size() : secs;
    for (uint64_t k = 0; k < trials; k++) {
      if (k % 16 == 15 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) break;
      N().seed = seed + k * 1000003ULL;
      if (rep.size()) N().seed = seed;
      N().s = N().seed * 0x2545F4914F6CDD1DULL + 0x1234567;
      N().log.clear(); N().failed = false; N().may = false;
      alarm(60);
      try {
        r.second();
        ran++;
      } catch (Skip&) { skipped++; continue;
      } catch (Thrown&) { ran++; if (!N().may) { N().failed = true; N().fail = "no exception outside the announced cases"; }
      } catch (std::exception& e) { N().failed = true; N().fail = std::string("exception: ") + e.what(); }
      alarm(0);
      if (N().failed) { crash(N().fail.c_str()); return 1; }
    }
  }
  printf("ran %llu skipped %llu", (unsigned long long)ran, (unsigned long long)skipped);
  for (auto& c : N().covers) printf(" cover:%s=%llu", c.first.c_str(), (unsigned long long)c.second);
  printf("\n");
  return rep.size() && skipped ? 2 : 0;
}
