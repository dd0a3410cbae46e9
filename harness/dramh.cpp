// Drives the DRAM model on its own.
//  dramh run <scenario> : lines "cfg F", "out D", "max N", "tail N", "perclk N", "t gap hexaddr w"; log on stdout
//  dramh geo <cfg> <outdir> <addrfile|-> : geometry and decoding of the addresses in the file
//  dramh enum <cfg> <outdir> <maxwords> : decode every word below the capacity and look for coordinates hit twice
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include "configuration.h"
#include "memory_system.h"
using namespace dramsim3;

static int run(const char *scen) {
  std::ifstream f(scen);
  std::string line, cfg, out;
  struct T { long gap; uint64_t addr; bool w; };
  std::vector<T> ts;
  uint64_t maxc = 1000000, tail = 0;
  int perclk = 1000000;
  while (std::getline(f, line)) {
    std::stringstream s(line);
    std::string k;
    s >> k;
    if (k == "cfg") s >> cfg;
    else if (k == "out") s >> out;
    else if (k == "max") s >> maxc;
    else if (k == "tail") s >> tail;
    else if (k == "perclk") s >> perclk;
    else if (k == "t") { T t; int w; s >> t.gap >> std::hex >> t.addr >> std::dec >> w; t.w = w; ts.push_back(t); }
  }
  uint64_t clk = 0, done = 0;
  std::string log;
  char b[128];
  // the harness's own standard output is the log; the model prints there too, so log lines are marked
  auto cb = [&](uint64_t a, bool w) { snprintf(b, sizeof b, "@C %lu %lx %d\n", clk, a, (int)w); log += b; done++; };
  MemorySystem m(cfg, out, [&](uint64_t a) { cb(a, false); }, [&](uint64_t a) { cb(a, true); });
  snprintf(b, sizeof b, "@G %d %d %d %d %d %d %d %d %.17g\n", m.GetChannels(), m.GetRanks(), m.GetBankGroups(), m.GetBanksPerGroup(),
           m.GetRows(), m.GetCols(), m.GetBurstLength(), m.GetBusBits(), m.GetTCK());
  log += b;
  size_t i = 0;
  uint64_t ready = ts.empty() ? 0 : ts[0].gap, stop = 0;
  const char *why = "max";
  while (clk < maxc) {
    m.ClockTick();
    int n = 0;
    while (i < ts.size() && clk >= ready && n < perclk && m.WillAcceptTransaction(ts[i].addr, ts[i].w)) {
      m.AddTransaction(ts[i].addr, ts[i].w);
      snprintf(b, sizeof b, "@A %lu %zu\n", clk, i);
      log += b;
      i++;
      n++;
      if (i < ts.size()) ready = clk + ts[i].gap;
    }
    clk++;
    if (i == ts.size() && done >= ts.size()) {
      if (!stop) stop = clk + tail;
      if (clk >= stop) { why = "done"; break; }
    }
  }
  m.PrintStats();
  snprintf(b, sizeof b, "@E %s %lu %zu %lu\n", why, clk, i, done);
  log += b;
  std::cout.flush();
  fwrite(log.data(), 1, log.size(), stdout);
  fflush(stdout);
  return 0;
}

static int geo(const char *cfg, const char *out, const char *af) {
  Config c(cfg, out, 0);
  printf("@G %d %d %d %d %d %d %d %d\n", c.channels, c.ranks, c.bankgroups, c.banks_per_group, c.rows, c.columns, c.BL, c.bus_width);
  std::ifstream f(af);
  std::string s;
  while (f >> s) {
    uint64_t a = strtoull(s.c_str(), 0, 16);
    Address d = c.AddressMapping(a);
    printf("@D %lx %d %d %d %d %d %d\n", a, d.channel, d.rank, d.bankgroup, d.bank, d.row, d.column);
  }
  return 0;
}

static int enumerate(const char *cfg, const char *out, uint64_t maxw) {
  Config c(cfg, out, 0);
  uint64_t wb = (uint64_t)c.bus_width / 8 * c.BL, cols = c.columns / c.BL;
  uint64_t total = (uint64_t)c.channels * c.ranks * c.bankgroups * c.banks_per_group * c.rows * cols;
  printf("@N %lu %lu\n", total, wb);
  if (total > maxw) return 0;
  std::vector<uint64_t> seen((total + 63) / 64, 0);
  uint64_t bad = 0;
  for (uint64_t w = 0; w < total && bad < 5; w++) {
    Address d = c.AddressMapping(w * wb);
    if (d.channel < 0 || d.channel >= c.channels || d.rank < 0 || d.rank >= c.ranks || d.bankgroup < 0 || d.bankgroup >= c.bankgroups ||
        d.bank < 0 || d.bank >= c.banks_per_group || d.row < 0 || d.row >= c.rows || d.column < 0 || (uint64_t)d.column >= cols) {
      printf("@O %lx %d %d %d %d %d %d\n", w * wb, d.channel, d.rank, d.bankgroup, d.bank, d.row, d.column);
      bad++;
      continue;
    }
    uint64_t k = ((((((uint64_t)d.channel * c.ranks + d.rank) * c.bankgroups + d.bankgroup) * c.banks_per_group + d.bank) * c.rows + d.row) * cols + d.column);
    if (seen[k / 64] >> (k % 64) & 1) { printf("@U %lx %lu\n", w * wb, k); bad++; }
    seen[k / 64] |= 1ull << (k % 64);
    // all bytes of a word decode alike
    if (w % 97 == 0) {
      Address e = c.AddressMapping(w * wb + wb - 1);
      if (e.channel != d.channel || e.rank != d.rank || e.bankgroup != d.bankgroup || e.bank != d.bank || e.row != d.row || e.column != d.column) {
        printf("@W %lx\n", w * wb);
        bad++;
      }
    }
  }
  printf("@F %lu\n", bad);
  return 0;
}

int main(int argc, char **argv) {
  if (argc >= 3 && !strcmp(argv[1], "run")) return run(argv[2]);
  if (argc >= 5 && !strcmp(argv[1], "geo")) return geo(argv[2], argv[3], argv[4]);
  if (argc >= 5 && !strcmp(argv[1], "enum")) return enumerate(argv[2], argv[3], strtoull(argv[4], 0, 10));
  return 64;
}
