// Runs the adder or multiplier example design with scripted operands: add_top/mult_top and
// everything below it are the repository's own; only the test bench is replaced.
#include <radsim_cluster.hpp>
#include <radsim_config.hpp>
#include <systemc.h>
#include <fstream>
#include <sstream>
#include <unistd.h>
#ifdef EX_ADD
#include <add_top.hpp>
typedef add_top dut_t;
#else
#include <mult_top.hpp>
typedef mult_top dut_t;
#endif

RADSimConfig radsim_config;
std::ostream *gWatchOut;
SimLog sim_log;
SimTraceRecording sim_trace_probe;

struct Item {
  int gap, last;
  std::string hex;
};

static sc_bv<DATAW> unhex(const std::string &s) {
  sc_bv<DATAW> v = 0;
  int k = 0;
  for (int i = (int)s.size() - 1; i >= 0; i--) {
    int d = s[i] <= '9' ? s[i] - '0' : s[i] - 'a' + 10;
    for (int b = 0; b < 4; b++, k++)
      if (k < DATAW) v[k] = (d >> b) & 1;
  }
  return v;
}

class Bench : public sc_module {
public:
  sc_in<bool> clk;
  sc_signal<bool> rst, last, valid, ready, rvalid;
  sc_signal<sc_bv<DATAW>> data, resp;
  std::vector<Item> items;
  FILE *log;
  int rstcycles = 1;
  long idle = 0, cycle = 0;
  size_t sent = 0;
  SC_HAS_PROCESS(Bench);
  Bench(const sc_module_name &n) : sc_module(n) {
    SC_CTHREAD(Source, clk.pos());
    SC_CTHREAD(Sink, clk.pos());
  }
  void Source() {
    rst.write(true);
    valid.write(false);
    for (int i = 0; i < rstcycles; i++) wait();
    rst.write(false);
    wait();
    for (auto &x : items) {
      for (int i = 0; i < x.gap; i++) wait();
      data.write(unhex(x.hex));
      last.write(x.last);
      valid.write(true);
      do wait();
      while (!(valid.read() && ready.read()));
      valid.write(false);
      sent++;
      idle = 0;
      fprintf(log, "S %ld %zu\n", cycle, sent);
    }
    while (true) wait();
  }
  void Sink() {
    bool was = false;
    std::string before;
    while (true) {
      wait();
      cycle++;
      idle++;
      bool v = rvalid.read();
      std::string s = resp.read().to_string();
      if (v != was || (v && s != before)) {
        fprintf(log, "R %ld %d %s\n", cycle, v, s.c_str());
        idle = 0;
        was = v;
        before = s;
      }
    }
  }
};

int sc_main(int argc, char *argv[]) {
  std::string dir = argv[1];
  gWatchOut = &cout;
  radsim_config.ResizeAll(1);
  ParseRADSimKnobs(dir + "/sim/radsim_knobs");
  RADSimCluster *cluster = new RADSimCluster(1);
  sim_log.SetLogSettings(radsim_config.GetIntKnobShared("telemetry_log_verbosity"), dir + "/sim.log");
  sim_trace_probe.SetTraceRecordingSettings(dir + "/sim.trace", 0);
  sc_clock *ck = new sc_clock("node_clk0", radsim_config.GetDoubleKnobShared("sim_driver_period"), SC_NS);
  Bench *b = new Bench("bench");
  std::ifstream f(dir + "/scenario.txt");
  long lim;
  f >> b->rstcycles >> lim;
  Item x;
  while (f >> x.gap >> x.last >> x.hex) b->items.push_back(x);
  b->log = fopen((dir + "/out.log").c_str(), "w");
  b->clk(*ck);
  dut_t *d = new dut_t("dut", cluster->all_rads[0]);
  d->rst(b->rst);
  d->client_tdata(b->data);
  d->client_tlast(b->last);
  d->client_valid(b->valid);
  d->client_ready(b->ready);
  d->response(b->resp);
  d->response_valid(b->rvalid);
  while (b->idle < lim && b->cycle < 2000000) sc_start(1000, SC_NS);
  fprintf(b->log, "E %zu %zu\n", b->sent, b->items.size());
  fclose(b->log);
  fflush(stdout);
  _exit(0);
}
