// Stands in for add_top / mult_top (STUB_TOP): accepts the test bench's operands with a scripted
// ready pattern, answers with the right value or a spoiled one. The test bench, the system
// around it and main.cpp are the repository's own.
// Script (stub.txt): ready stall percent, seed, answer delay in cycles, answer held (1) or one
// cycle (0), xor mask in hex, added offset, garbage before the answer (0/1).
#pragma once
#include <client.hpp>
#include <design_top.hpp>
#include <radsim_config.hpp>
#include <systemc.h>
#include <cstdio>
#include <fstream>
#include <string>

struct StubPorts {
  sc_in<bool> rst;
  sc_in<sc_bv<DATAW>> client_tdata;
  sc_in<bool> client_tlast, client_valid;
  sc_out<bool> client_ready;
  sc_out<sc_bv<DATAW>> response;
  sc_out<bool> response_valid;
};

class StubCore : public sc_module {
public:
  sc_in<bool> &rst;
  sc_in<sc_bv<DATAW>> &client_tdata;
  sc_in<bool> &client_tlast, &client_valid;
  sc_out<bool> &client_ready;
  sc_out<sc_bv<DATAW>> &response;
  sc_out<bool> &response_valid;
  sc_clock ck;
  FILE *log;
  int stall, delay, hold, offset, garbage;
  unsigned long seed;
  std::string mask;
  SC_HAS_PROCESS(StubCore);
  StubCore(const sc_module_name &name, StubPorts &p)
      : sc_module(name), rst(p.rst), client_tdata(p.client_tdata), client_tlast(p.client_tlast), client_valid(p.client_valid),
        client_ready(p.client_ready), response(p.response), response_valid(p.response_valid), ck("stub_clk", radsim_config.GetDoubleKnobShared("sim_driver_period"), SC_NS) {
    std::string dir = getenv("VROOT");
    std::ifstream f(dir + "/stub.txt");
    f >> stall >> seed >> delay >> hold >> mask >> offset >> garbage;
    log = fopen((dir + "/out.log").c_str(), "w");
    setvbuf(log, NULL, _IOLBF, 0);
    SC_CTHREAD(Run, ck);
  }
  bool Chance(int p) {
    seed = seed * 6364136223846793005UL + 1442695040888963407UL;
    return (int)((seed >> 33) % 100) < p;
  }
  void Run() {
    unsigned long acc = IDENTITY;
    bool waiting = false;
    std::string prev;
    client_ready.write(false);
    response_valid.write(false);
    wait();
    int left = -1;
    bool shown = false;
    while (true) {
      if (rst.read()) {
        if (client_valid.read()) fprintf(log, "X valid-in-reset\n");
      } else if (client_valid.read()) {
        std::string cur = client_tdata.read().to_string() + (client_tlast.read() ? "1" : "0");
        if (waiting && cur != prev) fprintf(log, "X changed\n");
        if (client_ready.read()) {
          sc_bv<DATAW> d = client_tdata.read();
          fprintf(log, "T %d %s\n", (int)client_tlast.read(), d.to_string().c_str());
          acc = COMBINE(acc, d.to_uint64());
          if (client_tlast.read()) {
            if (left >= 0 || shown) fprintf(log, "X second-last\n");
            left = delay;
          }
          waiting = false;
        } else {
          waiting = true;
          prev = cur;
        }
      } else if (waiting) {
        fprintf(log, "X withdrawn\n");
        waiting = false;
      }
      client_ready.write(!rst.read() && !Chance(stall));
      response_valid.write(shown && hold);
      if (garbage && !shown) response.write(sc_bv<DATAW>(seed & 0xffffff));
      if (left == 0) {
        sc_bv<DATAW> r = 0;
        sc_biguint<64> x = acc + (long)offset;
        for (int b = 0; b < 64; b++) r[b] = (bool)x[b];
        int k = 0;
        for (int i = (int)mask.size() - 1; i >= 0; i--) {
          int h = mask[i] <= '9' ? mask[i] - '0' : mask[i] - 'a' + 10;
          for (int b = 0; b < 4; b++, k++)
            if (k < DATAW && ((h >> b) & 1)) r[k] = !(bool)(r[k].to_bool());
        }
        fprintf(log, "A %s %llu\n", r.to_string().c_str(), (unsigned long long)sc_time_stamp().value());
        response.write(r);
        response_valid.write(true);
        shown = true;
        left = -1;
      } else if (left > 0)
        left--;
      wait();
    }
  }
};

class STUB_TOP : public RADSimDesignTop, public StubPorts {
public:
  StubCore core;
  STUB_TOP(const sc_module_name &name, RADSimDesignContext *c) : sc_module(name), RADSimDesignTop(c), core("core", *this) {}
};
