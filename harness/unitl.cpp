// Drives the simulation log, the event trace recorder and the cycle counter at chosen simulation times:
// one command per line on stdin; every answer starts with "@ ".
#include <systemc.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <radsim_config.hpp>
#include <radsim_telemetry.hpp>
#include <radsim_utils.hpp>

RADSimConfig radsim_config;
std::ostream *gWatchOut;
SimLog sim_log;
SimTraceRecording sim_trace_probe;

int sc_main(int, char **) {
  gWatchOut = &std::cout;
  SimLog *lg = &sim_log, *own_l = nullptr;
  SimTraceRecording *tr = &sim_trace_probe, *own_t = nullptr;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    if (op == "knobs") {
      std::string f;
      in >> f;
      radsim_config.ResizeAll(1);
      ParseRADSimKnobs(f);
    } else if (op == "logset") {            // logset <how> <verbosity> <file>
      std::string how, f;
      unsigned v;
      in >> how >> v >> f;
      if (how == "ctor") lg = own_l = new SimLog(v, f);
      else lg->SetLogSettings(v, f);
    } else if (op == "traceset") {          // traceset <how> <n> <file>
      std::string how, f;
      unsigned n;
      in >> how >> n >> f;
      if (how == "ctor") tr = own_t = new SimTraceRecording(f, n);
      else tr->SetTraceRecordingSettings(f, n);
    } else if (op == "adv") {
      unsigned long long ps;
      in >> ps;
      sc_start(sc_time((double)ps, SC_PS));
    } else if (op == "log") {               // log <level> <module> <how> <message>
      std::string lv, mod, msg;
      int how;                              // 0 not to the file, 1 to the file, 2 default arguments
      in >> lv >> mod >> how;
      std::getline(in, msg);
      msg = msg.substr(1);
      const char *m = mod.c_str();
#define LOG(L)                               \
  if (how == 2) lg->log(L, msg, m);          \
  else lg->log(L, msg, m, how == 1)
      if (lv == "debug") { LOG(debug); }
      else if (lv == "info") { LOG(info); }
      else if (lv == "trace") { LOG(sim_trace); }
      else if (lv == "warning") { LOG(warning); }
      else if (lv == "critical") { LOG(critical); }
      else if (lv == "error") { LOG(error); }
    } else if (op == "rec") {
      unsigned id;
      in >> id;
      tr->record_event(id);
    } else if (op == "dump") {
      std::string f;
      tr->dump_traces();
      in >> f;
      std::ifstream i(f);
      std::string l;
      while (std::getline(i, l)) std::cout << "@ dump " << l << std::endl;
      std::cout << "@ dumped" << std::endl;
    } else if (op == "cyc") {
      double p;
      in >> p;
      std::cout << "@ cyc " << GetSimulationCycle() << " " << GetSimulationCycle(p) << std::endl;
    }
  }
  std::cout << "@ END" << std::endl;
  delete own_l;
  delete own_t;
  return 0;
}
