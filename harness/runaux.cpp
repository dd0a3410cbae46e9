// Entry point around the main function config.py generates (compiled with sc_main renamed):
// scripted rand(), a limit on simulated time, and a note of when the run returned.
#include <systemc.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <string>
#include <vector>
#include <unistd.h>

extern "C" int generated_sc_main(int argc, char *argv[]);

static std::vector<int> numbers;
static size_t next_number = 0;
extern "C" int rand(void) noexcept {
  if (numbers.empty()) return 4;
  return numbers[next_number++ % numbers.size()];
}

class Watchdog : public sc_module {
public:
  double limit;
  FILE *log;
  SC_HAS_PROCESS(Watchdog);
  Watchdog(const sc_module_name &n, double l, FILE *f) : sc_module(n), limit(l), log(f) { SC_THREAD(Run); }
  void Run() {
    wait(limit, SC_NS);
    fprintf(log, "HANG\n");
    fclose(log);
    fflush(stdout);
    _exit(77);
  }
};

int sc_main(int argc, char *argv[]) {
  std::string dir = getenv("VROOT");
  std::ifstream f(dir + "/run.txt");
  double limit;
  int v;
  f >> limit;
  while (f >> v) numbers.push_back(v);
  FILE *log = fopen((dir + "/run.log").c_str(), "w");
  Watchdog *w = new Watchdog("verif_watchdog", limit, log);
  (void)w;
  int rc = generated_sc_main(argc, argv);
  fprintf(log, "RET %d %.6f\n", rc, sc_time_stamp().to_seconds() * 1e9);
  fclose(log);
  return rc;
}
