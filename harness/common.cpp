#include "common.hpp"
#include <typeinfo>
#include <cxxabi.h>
namespace vf {
Reporter R;
std::string throwSite();
int workerMain(int argc, char **argv, const Modes &modes) {
  if (argc < 8) {
    fprintf(stderr, "usage: worker MODE FROM TO SEED OUT PROGRESS TMP [replay]\n");
    return 2;
  }
  std::string mode = argv[1];
  auto it = modes.find(mode);
  if (it == modes.end()) {
    fprintf(stderr, "unknown mode %s\n", mode.c_str());
    return 2;
  }
  long from = atol(argv[2]), to = atol(argv[3]);
  uint64_t seed = strtoull(argv[4], nullptr, 10);
  R.f = fopen(argv[5], "a");
  R.progressFd = open(argv[6], O_CREAT | O_RDWR, 0600);
  R.tmp = argv[7];
  R.replay = argc > 8;
  mkdir(R.tmp.c_str(), 0700);
  if (!R.f || R.progressFd < 0) return 2;
  if (!R.replay) {
    // the code under test reports on stdout/stderr: not an oracle, keep it out of the way.
    // stderr stays (sanitizer reports), but C++ streams are silenced.
    std::cout.setstate(std::ios::failbit);
    std::cerr.setstate(std::ios::failbit);
    std::clog.setstate(std::ios::failbit);
  }
  long limitMs = 20000;
  if (const char *e = getenv("VF_CASE_CPU_MS")) limitMs = atol(e);
  for (long i = from; i < to; i++) {
    R.caseNo = i;
    R.caseHash = 0;
    R.caseNontrivial = false;
    if (pwrite(R.progressFd, &i, sizeof i, 0) != (ssize_t)sizeof i) return 2;
    itimerval tv{};
    tv.it_value.tv_sec = limitMs / 1000;
    tv.it_value.tv_usec = (limitMs % 1000) * 1000;
    setitimer(ITIMER_PROF, &tv, nullptr);
    Rng rng(mix(mix(seed) ^ hashStr(mode)) ^ mix(static_cast<uint64_t>(i) * 2 + 1));
    try {
      it->second.fn(rng, i);
    } catch (const std::exception &e) {
      int st = 0;
      char *n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
      std::string name = n ? n : typeid(e).name();
      free(n);
      if (it->second.exceptionIsViolation)
        R.violation("exception:" + name + ":" + throwSite(), e.what());
      else
        R.stat("exceptions");
    } catch (...) {
      R.violation("exception:unknown", "non-standard exception");
    }
    fprintf(R.f, "C\t%ld\t%016llx\t%d\n", i, (unsigned long long)R.caseHash, R.caseNontrivial);
    if ((i - from) % 16 == 15) R.flushStats();
  }
  itimerval tv{};
  setitimer(ITIMER_PROF, &tv, nullptr);
  R.flushStats();
  long done = to;
  (void)!pwrite(R.progressFd, &done, sizeof done, 0);
  fprintf(R.f, "D\t%ld\n", to);
  fclose(R.f);
  _exit(0);
}
} // namespace vf
