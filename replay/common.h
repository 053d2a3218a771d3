// Runs the real code on generated cases and compares with an independent oracle.
// Usage: <harness> <property> <tier> <seed> <seconds> [case-id]
// Cases run in a child process: a crash or a hang is reported with the case that caused it.
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

struct Shared {
  volatile uint64_t idx, evals, nontrivial, fails, done, onlyCase; // idx: current case
  volatile int limit;
  char desc[1 << 16];
  char report[1 << 18];
  uint32_t reportLen;
  char samples[1 << 13];
  uint32_t samplesLen, nsamples;
};

struct Out { std::string key, detail; bool nontrivial = true; bool ok() const { return key.empty(); } };
inline Out good(bool nontrivial = true) { Out o; o.nontrivial = nontrivial; return o; }
inline Out bad(std::string key, std::string detail) { Out o; o.key = std::move(key); o.detail = std::move(detail); return o; }

struct H {
  Shared *sh; std::string prop, tier; uint64_t seed; double seconds; uint64_t start = 0, cur = 0; int64_t only = -1; bool describe = false;
  std::mt19937_64 rng; std::chrono::steady_clock::time_point t0;
  bool thorough() const { return tier == "thorough"; }
  double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
  bool more() const { return elapsed() < seconds && sh->fails < 40; }
  uint64_t rnd(uint64_t n) { return n ? rng() % n : 0; }
  int64_t between(int64_t a, int64_t b) { return a + (int64_t)(rng() % (uint64_t)(b - a + 1)); }
  // one case: desc() describes the input, run() returns the outcome
  template <class D, class R> void test(D desc, R run) {
    uint64_t i = cur++;
    if (i < start) return;
    if (only >= 0 && (int64_t)i != only) return;
    if (sh->fails >= 40) return;
    sh->idx = i;
    if (only >= 0) { std::string d = desc(); snprintf(sh->desc, sizeof sh->desc, "%s", d.c_str()); }
    if (only >= 0 && describe) { sh->desc[sizeof(sh->desc) - 1] = 0; }
    Out o = run();
    sh->evals++;
    if (o.nontrivial) {
      sh->nontrivial++;
      uint64_t n = sh->nontrivial;
      if (sh->nsamples < 6 && (n == 1 || n == 50 || n == 1000 || n == 5000 || n == 20000 || n == 100000)) {
        std::string d = desc(); if (d.size() > 400) d = d.substr(0, 400) + "...";
        for (auto &c : d) if (c == '\n') c = ' ';
        sh->samplesLen += snprintf(sh->samples + sh->samplesLen, sizeof(sh->samples) - sh->samplesLen, "SAMPLE %s\n", d.c_str()); sh->nsamples++;
      }
    }
    if (!o.ok()) { std::string d = desc(); report(i, o.key, d, o.detail); }
  }
  static std::string esc(const std::string &s) {
    std::string r; for (unsigned char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\\') r += "\\\\"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += c; } return r;
  }
  void report(uint64_t i, const std::string &key, const std::string &d, const std::string &detail) {
    sh->fails++;
    if (sh->reportLen + 4096 < sizeof(sh->report)) {
      std::string l = "FAIL\t" + std::to_string(i) + "\t" + esc(key) + "\t" + esc(d.substr(0, 1500)) + "\t" + esc(detail.substr(0, 800)) + "\n";
      memcpy(sh->report + sh->reportLen, l.data(), l.size()); sh->reportLen += l.size(); sh->report[sh->reportLen] = 0;
    }
  }
};

template <class F> int harness_main(int argc, char **argv, F body) {
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string prop = argv[1], tier = argc > 2 ? argv[2] : "quick"; uint64_t seed = argc > 3 ? strtoull(argv[3], 0, 10) : 1; double secs = argc > 4 ? atof(argv[4]) : 10;
  int64_t only = argc > 5 ? atoll(argv[5]) : -1;
  auto t0 = std::chrono::steady_clock::now();
  uint64_t start = 0; int crashes = 0;
  auto launch = [&](uint64_t st, int64_t on, bool describe) {
    fflush(stdout); fflush(stderr);
    sh->idx = ~0ull; sh->done = 0;
    pid_t pid = fork();
    if (pid == 0) {
      if (!getenv("HARNESS_STDERR")) { (void)!freopen("/dev/null", "w", stderr); }
      H h; h.sh = sh; h.prop = prop; h.tier = tier; h.seed = seed; h.t0 = t0; h.seconds = on >= 0 ? 1e9 : secs; h.start = st; h.only = on; h.describe = describe; h.rng.seed(seed * 7919 + 12345);
      body(h);
      sh->done = 1; fflush(stdout);
      _exit(0);
    }
    // watchdog
    uint64_t last = ~0ull; int same = 0; int status = 0;
    for (;;) {
      pid_t r = waitpid(pid, &status, WNOHANG);
      if (r == pid) break;
      usleep(20000);
      uint64_t c = sh->idx;
      if (c == last) { if (++same > 500) { kill(pid, SIGKILL); waitpid(pid, &status, 0); return std::string("hang"); } } else { same = 0; last = c; }
    }
    if (sh->done) return std::string();
    if (WIFSIGNALED(status)) return "crash signal " + std::to_string(WTERMSIG(status));
    return "crash exit " + std::to_string(WEXITSTATUS(status));
  };
  for (;;) {
    std::string r = launch(start, only, false);
    if (r.empty()) break;
    uint64_t at = sh->idx; crashes++;
    if (at == ~0ull) { printf("HARNESS-ERROR %s before the first case\n", r.c_str()); return 2; }
    sh->desc[0] = 0;
    std::string d;
    if (only >= 0) d = sh->desc;
    else { std::string r2 = launch(at, (int64_t)at, true); d = sh->desc; if (r2.empty()) d += " [not reproduced in isolation]"; }
    H h; h.sh = sh; h.report(at, r == "hang" ? "hang" : "crash", d, r);
    if (only >= 0 || crashes >= 12) break;
    start = at + 1;
  }
  sh->report[sh->reportLen] = 0;
  printf("%s%s", sh->report, sh->samples);
  printf("STATS evaluations=%llu nontrivial=%llu fails=%llu\n", (unsigned long long)sh->evals, (unsigned long long)sh->nontrivial, (unsigned long long)sh->fails);
  return sh->fails ? 3 : 0;
}
