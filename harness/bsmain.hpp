// Globals that the generated main.cpp defines, for harnesses that drive
// Booksim without a design.
#include "booksim.hpp"
#include "radsim_config.hpp"
#include "radsim_telemetry.hpp"
#include <systemc.h>
#include <unistd.h>
RADSimConfig radsim_config;
std::ostream *gWatchOut = 0;
SimLog sim_log;
SimTraceRecording sim_trace_probe;
