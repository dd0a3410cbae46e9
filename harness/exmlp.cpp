// Runs the MLP example (mlp_top and everything below it are the repository's own) with a test
// bench of its own: one stream of vectors per dispatcher, with pauses, and a collector reader
// that also pauses. Scenario: reset cycles, number of dispatchers, then per dispatcher the
// number of vectors and "gap v0 .. v15" lines, then the reader's pattern (stall p of 100, seed).
#include <radsim_cluster.hpp>
#include <radsim_config.hpp>
#include <systemc.h>
#include <fstream>
#include <unistd.h>
#include <mlp_top.hpp>

RADSimConfig radsim_config;
std::ostream *gWatchOut;
SimLog sim_log;
SimTraceRecording sim_trace_probe;

struct Item { int gap; std::vector<int> v; };

class Bench : public sc_module {
public:
  sc_in<bool> clk;
  sc_signal<bool> rst, crdy, cren, gate;
  sc_vector<sc_signal<bool>> rdy, wen;
  sc_vector<sc_signal<data_vector<sc_int<32>>>> wdata;
  sc_signal<data_vector<sc_int<32>>> rdata;
  std::vector<std::vector<Item>> items;
  FILE *log;
  int rstcycles = 1, stall = 0;
  unsigned long seed = 1;
  long idle = 0, cycle = 0, sent = 0, got = 0;
  SC_HAS_PROCESS(Bench);
  Bench(const sc_module_name &n, int k) : sc_module(n), rdy("rdy", k), wen("wen", k), wdata("wdata", k) {
    SC_METHOD(Comb);
    sensitive << crdy << gate;
    SC_CTHREAD(Source, clk.pos());
    SC_CTHREAD(Sink, clk.pos());
  }
  void Comb() { cren.write(crdy.read() && gate.read()); }
  void Source() {
    rst.write(true);
    for (auto &x : wen) x.write(false);
    for (int i = 0; i < rstcycles; i++) wait();
    rst.write(false);
    wait();
    std::vector<size_t> pos(items.size(), 0);
    std::vector<int> hold(items.size(), -1);
    while (true) {
      for (size_t d = 0; d < items.size(); d++) {
        bool w = false;
        if (pos[d] < items[d].size()) {
          if (hold[d] < 0) hold[d] = items[d][pos[d]].gap;
          if (hold[d] > 0) hold[d]--, idle = 0;
          else if (rdy[d].read()) {
            wdata[d].write(data_vector<sc_int<32>>(items[d][pos[d]].v));
            w = true, pos[d]++, hold[d] = -1, sent++, idle = 0;
          }
        }
        wen[d].write(w);
      }
      wait();
    }
  }
  void Sink() {
    gate.write(true);
    while (true) {
      wait();
      cycle++;
      idle++;
      if (crdy.read() && cren.read()) {
        data_vector<sc_int<32>> v = rdata.read();
        if (v.size()) {
          fprintf(log, "O %ld", cycle);
          for (unsigned i = 0; i < v.size(); i++) fprintf(log, " %d", v[i].to_int());
          fprintf(log, "\n");
          got++;
          idle = 0;
        }
      }
      seed = seed * 6364136223846793005UL + 1442695040888963407UL;
      gate.write((int)((seed >> 33) % 100) >= stall);
    }
  }
};

int sc_main(int argc, char *argv[]) {
  std::string dir = argv[1];
  gWatchOut = &cout;
  radsim_config.ResizeAll(1);
  ParseRADSimKnobs(dir + "/sim/radsim_knobs");
  RADSimCluster *cluster = new RADSimCluster(1);
  sim_log.SetLogSettings(radsim_config.GetIntKnobShared("telemetry_log_verbosity"), dir + "/sim.log");
  sim_trace_probe.SetTraceRecordingSettings(dir + "/sim.trace", 0);
  sc_clock *ck = new sc_clock("node_clk0", radsim_config.GetDoubleKnobShared("sim_driver_period"), SC_NS);
  std::ifstream f(dir + "/scenario.txt");
  int k, rc;
  f >> rc >> k;
  Bench *b = new Bench("bench", k);
  b->rstcycles = rc;
  b->items.resize(k);
  for (auto &q : b->items) {
    int n;
    f >> n;
    for (int i = 0; i < n; i++) {
      Item x;
      x.v.resize(LANES);
      f >> x.gap;
      for (auto &e : x.v) f >> e;
      q.push_back(x);
    }
  }
  f >> b->stall >> b->seed;
  b->log = fopen((dir + "/out.log").c_str(), "w");
  b->clk(*ck);
  mlp_top *d = new mlp_top("dut", cluster->all_rads[0]);
  d->rst(b->rst);
  d->dispatcher_fifo_rdy(b->rdy);
  d->dispatcher_fifo_wen(b->wen);
  d->dispatcher_fifo_wdata(b->wdata);
  d->collector_fifo_rdy(b->crdy);
  d->collector_fifo_ren(b->cren);
  d->collector_fifo_rdata(b->rdata);
  long lim;
  f >> lim;
  while (b->idle < lim && b->cycle < 1000000) sc_start(1000, SC_NS);
  fprintf(b->log, "E %ld %ld\n", b->sent, b->got);
  fclose(b->log);
  fflush(stdout);
  _exit(0);
}
