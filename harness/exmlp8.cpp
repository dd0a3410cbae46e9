// Runs the int8 MLP example (mlp_top / mlp_int8_system and everything below them, SystemC and
// Verilog engines alike, are the repository's own). Mode "bench": a test bench of ours loads
// weights and instructions, drives the dispatchers with pauses and reads the collector with
// pauses; mode "driver": the example's own driver does all that and judges the outputs.
// Scenario (bench): reset cycles, settle cycles, weights ("gap layer mvm dot addr v0..v63"),
// instructions ("gap layer mvm" and the eight fields), dispatchers with their "gap v0 .. v63"
// lines, stall p of 100 (or, above 100, the cycle reading starts, counted from the end of the
// settling), seed, idle limit, expected outputs and idle limit after them.
#include <radsim_cluster.hpp>
#include <radsim_config.hpp>
#include <systemc.h>
#include <fstream>
#include <unistd.h>
#include <mlp_int8_system.hpp>

RADSimConfig radsim_config;
std::ostream *gWatchOut;
SimLog sim_log;
SimTraceRecording sim_trace_probe;

typedef data_vector<sc_int<IPRECISION>> Vec;
struct Item { int gap, a[11]; std::vector<int> v; };

class Bench : public sc_module {
public:
  sc_in<bool> clk;
  sc_signal<bool> rst, crdy, cren, gate;
  sc_signal<bool> wr[5], ir[3], ww, iw;
  sc_signal<Vec> wdata, rdata;
  sc_signal<uint8_t> wid, wlayer, wmvm, ilayer, imvm;
  sc_signal<sc_uint<RF_ADDRW>> waddr;
  sc_signal<mvm_inst> inst;
  sc_vector<sc_signal<bool>> rdy, wen;
  sc_vector<sc_signal<Vec>> data;
  std::vector<Item> weights, insts;
  std::vector<std::vector<Item>> items;
  FILE *log;
  int rstcycles = 1, settle = 0, stall = 0;
  unsigned long seed = 1;
  bool started = false;
  long idle = 0, cycle = 0, sent = 0, got = 0;
  SC_HAS_PROCESS(Bench);
  Bench(const sc_module_name &n, int k) : sc_module(n), rdy("rdy", k), wen("wen", k), data("data", k) {
    SC_METHOD(Comb);
    sensitive << crdy << gate;
    SC_CTHREAD(Source, clk.pos());
    SC_CTHREAD(Sink, clk.pos());
  }
  void Comb() { cren.write(crdy.read() && gate.read()); }
  bool All(sc_signal<bool> *s, int n) {
    for (int i = 0; i < n; i++)
      if (!s[i].read()) return false;
    return true;
  }
  void Source() {
    rst.write(true);
    ww.write(false), iw.write(false);
    for (auto &x : wen) x.write(false);
    for (int i = 0; i < rstcycles; i++) wait();
    rst.write(false);
    wait();
    for (auto &x : weights) {
      for (int g = 0; g < x.gap || !All(wr, 5); g++) ww.write(false), wait();
      wdata.write(Vec(x.v));
      wlayer.write(x.a[0]), wmvm.write(x.a[1]), wid.write(x.a[2]), waddr.write(x.a[3]);
      ww.write(true);
      wait();
    }
    ww.write(false);
    for (auto &x : insts) {
      for (int g = 0; g < x.gap || !All(ir, 3); g++) iw.write(false), wait();
      mvm_inst i;
      ilayer.write(x.a[0]), imvm.write(x.a[1]);
      i.release_op = x.a[2], i.release_dest = x.a[3], i.rf_raddr = x.a[4], i.accum_raddr = x.a[5];
      i.last = x.a[6], i.release = x.a[7], i.accum_en = x.a[8], i.reduce = x.a[9];
      inst.write(i);
      iw.write(true);
      wait();
    }
    iw.write(false);
    for (int i = 0; i < settle; i++) wait();
    started = true;
    cycle = 0;
    std::vector<size_t> pos(items.size(), 0);
    std::vector<int> hold(items.size(), -1);
    while (true) {
      for (size_t d = 0; d < items.size(); d++) {
        bool w = false;
        if (pos[d] < items[d].size()) {
          if (hold[d] < 0) hold[d] = items[d][pos[d]].gap;
          if (hold[d] > 0) hold[d]--, idle = 0;
          else if (rdy[d].read()) {
            data[d].write(Vec(items[d][pos[d]].v));
            w = true, pos[d]++, hold[d] = -1, sent++, idle = 0;
          }
        }
        wen[d].write(w);
      }
      wait();
    }
  }
  void Sink() {
    gate.write(true);
    while (true) {
      wait();
      cycle++;
      if (started) idle++;
      if (crdy.read() && cren.read()) {
        Vec v = rdata.read();
        if (v.size()) {
          fprintf(log, "O %ld", cycle);
          for (unsigned i = 0; i < v.size(); i++) fprintf(log, " %d", v[i].to_int());
          fprintf(log, "\n");
          got++;
          idle = 0;
        }
      }
      seed = seed * 6364136223846793005UL + 1442695040888963407UL;
      gate.write(stall > 100 ? started && cycle > stall : (int)((seed >> 33) % 100) >= stall);
    }
  }
};

static void Read(std::ifstream &f, std::vector<Item> &q, int fields, int lanes) {
  int n;
  f >> n;
  for (int i = 0; i < n; i++) {
    Item x;
    f >> x.gap;
    for (int k = 0; k < fields; k++) f >> x.a[k];
    x.v.resize(lanes);
    for (auto &e : x.v) f >> e;
    q.push_back(x);
  }
}

int sc_main(int argc, char *argv[]) {
  std::string dir = argv[1];
  gWatchOut = &cout;
  radsim_config.ResizeAll(1);
  ParseRADSimKnobs(dir + "/sim/radsim_knobs");
  RADSimCluster *cluster = new RADSimCluster(1);
  sim_log.SetLogSettings(radsim_config.GetIntKnobShared("telemetry_log_verbosity"), dir + "/sim.log");
  sim_trace_probe.SetTraceRecordingSettings(dir + "/sim.trace", 0);
  sc_clock *ck = new sc_clock("node_clk0", radsim_config.GetDoubleKnobShared("sim_driver_period"), SC_NS);
  std::ifstream f(dir + "/scenario.txt");
  std::string mode;
  FILE *log = fopen((dir + "/out.log").c_str(), "w");
  f >> mode;
  if (mode == "driver") {
    long maxns;
    f >> maxns;
    mlp_int8_system *s = new mlp_int8_system("sys", ck, cluster->all_rads[0]);
    cluster->StoreSystem(s);
    long ns = 0;
    while (cluster->AllRADsNotDone() && ns < maxns) sc_start(1, SC_NS), ns++;
    fprintf(log, "X %d %d\n", (int)!cluster->AllRADsNotDone(), cluster->all_rads[0]->GetSimExitCode());
    fclose(log);
    fflush(stdout);
    _exit(0);
  }
  int k, rst, settle;
  long lim, want, tail;
  std::vector<Item> w, in;
  f >> rst >> settle;
  Read(f, w, 4, LANES);
  Read(f, in, 10, 0);
  f >> k;
  Bench *b = new Bench("bench", k);
  b->items.resize(k);
  for (auto &q : b->items) Read(f, q, 0, LANES);
  b->weights = w, b->insts = in;
  b->rstcycles = rst, b->settle = settle;
  f >> b->stall >> b->seed >> lim >> want >> tail;
  b->log = log;
  b->clk(*ck);
  mlp_top *d = new mlp_top("dut", cluster->all_rads[0]);
  d->rst(b->rst);
  d->weight_loader_weight_fifo_rdy(b->wr[0]), d->weight_loader_weight_fifo_wen(b->ww), d->weight_loader_weight_fifo_wdata(b->wdata);
  d->weight_loader_rf_id_fifo_rdy(b->wr[1]), d->weight_loader_rf_id_fifo_wen(b->ww), d->weight_loader_rf_id_fifo_wdata(b->wid);
  d->weight_loader_rf_addr_fifo_rdy(b->wr[2]), d->weight_loader_rf_addr_fifo_wen(b->ww), d->weight_loader_rf_addr_fifo_wdata(b->waddr);
  d->weight_loader_layer_id_fifo_rdy(b->wr[3]), d->weight_loader_layer_id_fifo_wen(b->ww), d->weight_loader_layer_id_fifo_wdata(b->wlayer);
  d->weight_loader_mvm_id_fifo_rdy(b->wr[4]), d->weight_loader_mvm_id_fifo_wen(b->ww), d->weight_loader_mvm_id_fifo_wdata(b->wmvm);
  d->inst_loader_inst_fifo_rdy(b->ir[0]), d->inst_loader_inst_fifo_wen(b->iw), d->inst_loader_inst_fifo_wdata(b->inst);
  d->inst_loader_layer_id_fifo_rdy(b->ir[1]), d->inst_loader_layer_id_fifo_wen(b->iw), d->inst_loader_layer_id_fifo_wdata(b->ilayer);
  d->inst_loader_mvm_id_fifo_rdy(b->ir[2]), d->inst_loader_mvm_id_fifo_wen(b->iw), d->inst_loader_mvm_id_fifo_wdata(b->imvm);
  d->dispatcher_fifo_rdy(b->rdy);
  d->dispatcher_fifo_wen(b->wen);
  d->dispatcher_fifo_wdata(b->data);
  d->collector_fifo_rdy(b->crdy);
  d->collector_fifo_ren(b->cren);
  d->collector_fifo_rdata(b->rdata);
  long total = 0;
  while (b->idle < (b->got < want ? lim : tail) && total++ < 20000) sc_start(500, SC_NS);
  fprintf(b->log, "E %ld %ld %d\n", b->sent, b->got, (int)b->started);
  fclose(b->log);
  fflush(stdout);
  _exit(0);
}
