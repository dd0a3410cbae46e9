// Compiled with TWO_RADS: the two-device version, device 0 looks up and interacts, device 1 holds
// the network and the collector; every device has a test bench of its own.
// Runs the DLRM example (dlrm_top / dlrm_system and everything below them are the repository's
// own). Mode "bench": a test bench of ours drives lookups with pauses and reads the collector
// with pauses; mode "driver": the example's own driver judges the outputs.
// Scenario: mode, reset cycles, number of inputs, lookups per input, stall p of 100 (or, above
// 100, the cycle reading starts), seed, idle
// limit, expected outputs and idle limit after them, then per input "gap" and the indices, channels and base addresses.
#include <radsim_cluster.hpp>
#include <radsim_config.hpp>
#include <systemc.h>
#include <fstream>
#include <unistd.h>
#ifdef TWO_RADS
#include <radsim_inter_rad.hpp>
#include <dlrm_two_rad_system.hpp>
#define NRADS 2
typedef dlrm_two_rad_system the_system;
struct Shell : public RADSimDesignSystem {
  Shell(const sc_module_name &n) : sc_module(n) {}
};
#else
#include <dlrm_system.hpp>
#define NRADS 1
typedef dlrm_system the_system;
#endif

RADSimConfig radsim_config;
std::ostream *gWatchOut;
SimLog sim_log;
SimTraceRecording sim_trace_probe;

struct Item { int gap; std::vector<uint64_t> idx, base; std::vector<unsigned> ch; };

class Bench : public sc_module {
public:
  sc_in<bool> clk;
  sc_signal<bool> rst, valid, ready, crdy, cren, gate;
  sc_signal<data_vector<uint64_t>> idx, base;
  sc_signal<data_vector<unsigned int>> ch;
  sc_signal<unsigned int> resp;
  sc_signal<data_vector<int16_t>> rdata;
  std::vector<Item> items;
  FILE *log;
  int rstcycles = 1, stall = 0;
  unsigned long seed = 1;
  long idle = 0, cycle = 0, sent = 0, got = 0;
  SC_HAS_PROCESS(Bench);
  Bench(const sc_module_name &n) : sc_module(n) {
    SC_METHOD(Comb);
    sensitive << crdy << gate;
    SC_CTHREAD(Source, clk.pos());
    SC_CTHREAD(Sink, clk.pos());
  }
  void Comb() { cren.write(crdy.read() && gate.read()); }
  void Source() {
    rst.write(true);
    valid.write(false);
    for (int i = 0; i < rstcycles; i++) wait();
    rst.write(false);
    wait();
    for (auto &x : items) {
      for (int g = 0; g < x.gap; g++) {
        idle = 0;
        wait();
      }
      idx.write(data_vector<uint64_t>(x.idx));
      ch.write(data_vector<unsigned>(x.ch));
      base.write(data_vector<uint64_t>(x.base));
      valid.write(true);
      do wait(); while (!ready.read());
      valid.write(false);
      sent++;
      idle = 0;
    }
    while (true) wait();
  }
  void Sink() {
    gate.write(true);
    while (true) {
      wait();
      cycle++;
      idle++;
      if (crdy.read() && cren.read()) {
        data_vector<int16_t> v = rdata.read();
        if (v.size()) {
          fprintf(log, "O %ld", cycle);
          for (unsigned i = 0; i < v.size(); i++) fprintf(log, " %d", (int)v[i]);
          fprintf(log, "\n");
          got++;
          idle = 0;
        }
      }
      seed = seed * 6364136223846793005UL + 1442695040888963407UL;
      gate.write(stall > 100 ? cycle > stall : (int)((seed >> 33) % 100) >= stall);
    }
  }
};

static void Join(RADSimCluster *cluster) {
#ifdef TWO_RADS
  sc_clock *ck = new sc_clock("inter_clk", radsim_config.GetDoubleKnobShared("sim_driver_period"), SC_NS);
  RADSimInterRad *net = new RADSimInterRad("inter_rad_box", ck, cluster);
  for (int r = 0; r < NRADS; r++) net->ConnectClusterInterfaces(r);
#endif
}

int sc_main(int argc, char *argv[]) {
  std::string dir = argv[1];
  gWatchOut = &cout;
  radsim_config.ResizeAll(NRADS);
  ParseRADSimKnobs(dir + "/sim/radsim_knobs");
  RADSimCluster *cluster = new RADSimCluster(NRADS);
  sim_log.SetLogSettings(radsim_config.GetIntKnobShared("telemetry_log_verbosity"), dir + "/sim.log");
  sim_trace_probe.SetTraceRecordingSettings(dir + "/sim.trace", 0);
  sc_clock *ck = new sc_clock("node_clk0", radsim_config.GetDoubleKnobShared("sim_driver_period"), SC_NS);
  std::ifstream f(dir + "/scenario.txt");
  std::string mode;
  int n, t;
  long lim, want, tail;
  FILE *log = fopen((dir + "/out.log").c_str(), "w");
  f >> mode;
  if (mode == "driver") {
    long maxns;
    f >> maxns;
    for (int r = 0; r < NRADS; r++) cluster->StoreSystem(new the_system(("sys" + std::to_string(r)).c_str(), ck, cluster->all_rads[r]));
    Join(cluster);
    long ns = 0;
    while (cluster->AllRADsNotDone() && ns < maxns) sc_start(1, SC_NS), ns++;
    fprintf(log, "X %d %d\n", (int)!cluster->AllRADsNotDone(), cluster->all_rads[NRADS - 1]->GetSimExitCode());
    fclose(log);
    fflush(stdout);
    _exit(0);
  }
  Bench *all[NRADS];
  for (int r = 0; r < NRADS; r++) {
    Bench *b = all[r] = new Bench(("bench" + std::to_string(r)).c_str());
    if (r == 0) {
      f >> b->rstcycles >> n >> t >> b->stall >> b->seed >> lim >> want >> tail;
      for (int i = 0; i < n; i++) {
        Item x;
        x.idx.resize(t), x.ch.resize(t), x.base.resize(t);
        f >> x.gap;
        for (auto &e : x.idx) f >> e;
        for (auto &e : x.ch) f >> e;
        for (auto &e : x.base) f >> e;
        b->items.push_back(x);
      }
    } else {
      b->rstcycles = all[0]->rstcycles;
      b->stall = all[0]->stall;
      b->seed = all[0]->seed;
    }
    b->log = log;
    b->clk(*ck);
    dlrm_top *d = new dlrm_top(("dut" + std::to_string(r)).c_str(), cluster->all_rads[r]);
    d->rst(b->rst);
    d->lookup_indecies_data(b->idx);
    d->lookup_indecies_target_channels(b->ch);
    d->lookup_indecies_base_addresses(b->base);
    d->lookup_indecies_valid(b->valid);
    d->lookup_indecies_ready(b->ready);
    d->received_responses(b->resp);
    d->collector_fifo_rdy(b->crdy);
    d->collector_fifo_ren(b->cren);
    d->collector_fifo_rdata(b->rdata);
#ifdef TWO_RADS
    Shell *sh = new Shell(("shell" + std::to_string(r)).c_str());
    sh->design_dut_inst = d;
    cluster->StoreSystem(sh);
#endif
  }
  Join(cluster);
  Bench *b = all[0], *c = all[NRADS - 1];
  while (std::min(b->idle, c->idle) < (c->got < want ? lim : tail) && b->cycle < 1000000) sc_start(100, SC_NS);
  fprintf(log, "R %u\nE %ld %ld\n", b->resp.read(), b->sent, c->got);
  fclose(log);
  fflush(stdout);
  _exit(0);
}
