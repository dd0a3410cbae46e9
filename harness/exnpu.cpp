// Runs the NPU example (npu_top and everything below it are the repository's own, with a scaled
// down parameter header): a test bench writes a program, starts it, feeds every thread and core
// its own inputs with pauses and reads the outputs with pauses.
// Scenario: reset cycles, instruction gap p, cycles before start, input p of 100, first input
// cycle, stall p of 100, cycle reading starts, seed, idle limit, expected outputs per thread,
// idle limit after them, number of inputs per thread, then the inputs (thread, then core, lanes).
#include <radsim_cluster.hpp>
#include <radsim_config.hpp>
#include <systemc.h>
#include <fstream>
#include <unistd.h>
#include <npu_top.hpp>

RADSimConfig radsim_config;
std::ostream *gWatchOut;
SimLog sim_log;
SimTraceRecording sim_trace_probe;
typedef data_vector<tb_input_precision> iv;
typedef data_vector<tb_output_precision> ov;

class Bench : public sc_module {
public:
  sc_in<bool> clk;
  sc_signal<bool> rst, inst_wen, start;
  sc_signal<vliw_inst> inst_wdata;
  sc_signal<unsigned int> inst_waddr, start_pc, end_pc;
  sc_signal<sc_uint<MRF_ADDRW>> mrf_waddr;
  sc_signal<iv> mrf_wdata;
  sc_signal<sc_uint<MRFIDW>> mrf_wid;
  sc_vector<sc_vector<sc_signal<bool>>> irdy, iwen, ordy, oren;
  sc_vector<sc_vector<sc_signal<iv>>> iw;
  sc_vector<sc_vector<sc_signal<ov>>> orr;
  sc_vector<sc_signal<bool>> gate;
  std::vector<vliw_inst> prog;
  std::vector<std::vector<std::vector<iv>>> in;  // thread, input, core
  FILE *log;
  int rstcycles = 1, igap = 0, sdelay = 0, inp = 100, istart = 0, stall = 0, ostart = 0;
  unsigned long seed = 1;
  long idle = 0, cycle = 0, sent = 0;
  std::vector<long> got;
  bool started = false;
  SC_HAS_PROCESS(Bench);
  Bench(const sc_module_name &n) : sc_module(n), irdy("irdy"), iwen("iwen"), ordy("ordy"), oren("oren"), iw("iw"), orr("orr"), gate("gate", THREADS), got(THREADS, 0) {
    init_vector<sc_signal<bool>>::init_sc_vector(irdy, THREADS, CORES);
    init_vector<sc_signal<bool>>::init_sc_vector(iwen, THREADS, CORES);
    init_vector<sc_signal<iv>>::init_sc_vector(iw, THREADS, CORES);
    init_vector<sc_signal<bool>>::init_sc_vector(ordy, THREADS, CORES);
    init_vector<sc_signal<bool>>::init_sc_vector(oren, THREADS, CORES);
    init_vector<sc_signal<ov>>::init_sc_vector(orr, THREADS, CORES);
    SC_METHOD(Comb);
    for (int t = 0; t < THREADS; t++) {
      sensitive << gate[t];
      for (int c = 0; c < CORES; c++) sensitive << ordy[t][c];
    }
    SC_CTHREAD(Source, clk.pos());
    SC_CTHREAD(Sink, clk.pos());
  }
  int rnd(unsigned long &s) {
    s = s * 6364136223846793005UL + 1442695040888963407UL;
    return (int)((s >> 33) % 100);
  }
  void Comb() {
    for (int t = 0; t < THREADS; t++) {
      bool all = gate[t].read();
      for (int c = 0; c < CORES; c++) all = all && ordy[t][c].read();
      for (int c = 0; c < CORES; c++) oren[t][c].write(all);
    }
  }
  void Source() {
    unsigned long s = seed ^ 0x5555;
    rst.write(true);
    inst_wen.write(false), start.write(false), start_pc.write(0), end_pc.write(prog.size());
    for (int t = 0; t < THREADS; t++)
      for (int c = 0; c < CORES; c++) iwen[t][c].write(false);
    for (int i = 0; i < rstcycles; i++) wait();
    rst.write(false);
    wait();
    for (unsigned i = 0; i < prog.size(); i++) {
      while (rnd(s) < igap) inst_wen.write(false), idle = 0, wait();
      inst_wdata.write(prog[i]), inst_wen.write(true), inst_waddr.write(i);
      idle = 0;
      wait();
    }
    inst_wen.write(false);
    wait();
    for (int i = 0; i < sdelay; i++) idle = 0, wait();
    start.write(true);
    wait();
    start.write(false);
    wait();
    std::vector<size_t> pos(THREADS, 0);
    long c0 = 0;
    while (true) {
      c0++;
      for (int t = 0; t < THREADS; t++) {
        bool w = pos[t] < in[t].size() && c0 > istart && rnd(s) < inp;
        if (pos[t] < in[t].size() && c0 <= istart) idle = 0;
        for (int c = 0; c < CORES; c++) w = w && irdy[t][c].read();
        for (int c = 0; c < CORES; c++) {
          iwen[t][c].write(w);
          if (w) iw[t][c].write(in[t][pos[t]][c]);
        }
        if (w) pos[t]++, sent++, idle = 0;
      }
      wait();
    }
  }
  void Sink() {
    for (int t = 0; t < THREADS; t++) gate[t].write(ostart == 0);
    while (true) {
      wait();
      cycle++;
      idle++;
      if (cycle < ostart) idle = 0;
      for (int t = 0; t < THREADS; t++) {
        if (oren[t][0].read()) {
          for (int c = 0; c < CORES; c++) {
            ov v = orr[t][c].read();
            fprintf(log, "O %d %d", t, c);
            for (unsigned i = 0; i < v.size(); i++) fprintf(log, " %d", v[i].to_int());
            fprintf(log, "\n");
          }
          got[t]++;
          idle = 0;
        }
        gate[t].write(rnd(seed) >= stall && cycle >= ostart);
      }
    }
  }
};

int sc_main(int argc, char *argv[]) {
  std::string dir = argv[1];
  gWatchOut = &cout;
  radsim_config.ResizeAll(1);
  ParseRADSimKnobs(dir + "/sim/radsim_knobs");
  RADSimCluster *cluster = new RADSimCluster(1);
  sim_log.SetLogSettings(radsim_config.GetIntKnobShared("telemetry_log_verbosity"), dir + "/sim.log");
  sim_trace_probe.SetTraceRecordingSettings(dir + "/sim.trace", 0);
  sc_clock *ck = new sc_clock("node_clk0", radsim_config.GetDoubleKnobShared("sim_driver_period"), SC_NS);
  std::ifstream f(dir + "/scenario.txt");
  Bench *b = new Bench("bench");
  long lim, want, after, n;
  f >> b->rstcycles >> b->igap >> b->sdelay >> b->inp >> b->istart >> b->stall >> b->ostart >> b->seed >> lim >> want >> after >> n;
  b->in.assign(THREADS, std::vector<std::vector<iv>>(n, std::vector<iv>(CORES, iv(LANES))));
  for (auto &t : b->in)
    for (auto &i : t)
      for (auto &c : i)
        for (unsigned l = 0; l < LANES; l++) {
          int x;
          f >> x;
          c[l] = x;
        }
  std::string pf = dir + "/register_files/instructions.txt";
  if (!f || !ParseNPUInst(pf, b->prog)) return 3;
  b->log = fopen((dir + "/out.log").c_str(), "w");
  b->clk(*ck);
  npu_top *d = new npu_top("dut", cluster->all_rads[0]);
  d->rst(b->rst);
  d->inst_wdata(b->inst_wdata), d->inst_waddr(b->inst_waddr), d->inst_wen(b->inst_wen);
  d->start_pc(b->start_pc), d->end_pc(b->end_pc), d->start(b->start);
  d->mrf_waddr(b->mrf_waddr), d->mrf_wdata(b->mrf_wdata), d->mrf_wid(b->mrf_wid);
  d->ififo_rdy(b->irdy), d->ififo_wen(b->iwen), d->ififo_wdata(b->iw);
  d->ofifo_rdy(b->ordy), d->ofifo_ren(b->oren), d->ofifo_rdata(b->orr);
  while (b->cycle < 2000000) {
    bool all = true;
    for (long g : b->got) all = all && g >= want;
    if (b->idle >= (all ? after : lim)) break;
    sc_start(1000, SC_NS);
  }
  fprintf(b->log, "E %ld %ld\n", b->sent, b->cycle);
  fclose(b->log);
  fflush(stdout);
  _exit(0);
}
