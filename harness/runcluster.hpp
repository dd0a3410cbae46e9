// vdesign_system for the several-device main.cpp: each device holds only its portal and a test
// bench that reports failure and completion at scripted cycles (script.txt in VROOT: one line
// per device, "done-cycle number-of-failures cycle...").
#pragma once
#include <design_system.hpp>
#include <design_top.hpp>
#include <radsim_config.hpp>
#include <systemc.h>
#include <cstdio>
#include <fstream>
#include <string>

class vdesign_top : public RADSimDesignTop {
public:
  sc_in<bool> rst;
  vdesign_top(const sc_module_name &n, RADSimDesignContext *c) : sc_module(n), RADSimDesignTop(c) {
    this->connectPortalReset(&rst);
    c->BuildDesignContext("x.place", "x.clks");
    c->CreateSystemNoCs(rst);
    c->ConnectModulesToNoC();
  }
};

class vdesign_driver : public sc_module {
public:
  sc_in<bool> clk;
  sc_out<bool> rst;
  RADSimDesignContext *ctx;
  long done = 1;
  std::vector<long> fails;
  SC_HAS_PROCESS(vdesign_driver);
  vdesign_driver(const sc_module_name &n, RADSimDesignContext *c) : sc_module(n), ctx(c) {
    std::ifstream f(std::string(getenv("VROOT")) + "/script.txt");
    for (unsigned r = 0; r <= c->rad_id; r++) {
      long k;
      f >> done >> k;
      fails.resize(k);
      for (auto &x : fails) f >> x;
    }
    SC_CTHREAD(Run, clk.pos());
  }
  void Run() {
    rst.write(true);
    wait();
    rst.write(false);
    long cycle = 0;
    while (true) {
      for (long x : fails)
        if (x == cycle) ctx->ReportDesignFailure();
      if (cycle == done) {
        printf("DONE %u %.6f\n", (unsigned)ctx->rad_id, sc_time_stamp().to_seconds() * 1e9);
        ctx->set_rad_done();
      }
      cycle++;
      wait();
    }
  }
};

class vdesign_system : public RADSimDesignSystem {
public:
  sc_signal<bool> rst_sig;
  vdesign_driver *driver_inst;
  vdesign_top *dut_inst;
  vdesign_system(const sc_module_name &n, sc_clock *ck, RADSimDesignContext *c) : sc_module(n) {
    driver_inst = new vdesign_driver("driver", c);
    driver_inst->clk(*ck);
    driver_inst->rst(rst_sig);
    dut_inst = new vdesign_top("dut", c);
    dut_inst->rst(rst_sig);
    this->design_dut_inst = dut_inst;
  }
  ~vdesign_system() {
    delete driver_inst;
    delete dut_inst;
  }
};
