// Scenario runner: builds a design of scripted endpoint modules from a text
// description, runs the real simulator around it and logs what the endpoints
// observe at their ports. All judgement is made outside, from the log.
#include <design_context.hpp>
#include <mem_controller.hpp>
#include <radsim_cluster.hpp>
#include <radsim_config.hpp>
#include <radsim_inter_rad.hpp>
#include <systemc.h>

#include <deque>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

RADSimConfig radsim_config;
std::ostream *gWatchOut;
SimLog sim_log;
SimTraceRecording sim_trace_probe;

static FILE *logf_;
static uint64_t last_event_ps = 0;
static long total_events = 0, want_events = 0;
static void event() {
  total_events++;
  last_event_ps = sc_time_stamp().value();
}
static unsigned long long now() { return sc_time_stamp().value(); }

template <int W> static std::string hex(const sc_bv<W> &v) {
  std::string s;
  bool lead = true;
  for (int i = (W - 1) / 4; i >= 0; i--) {
    int d = 0;
    for (int b = 3; b >= 0; b--) {
      int k = i * 4 + b;
      d = d * 2 + (k < W ? (v[k].to_bool() ? 1 : 0) : 0);
    }
    if (d || !lead || i == 0) {
      lead = false;
      s += "0123456789abcdef"[d];
    }
  }
  return s;
}
template <int W> static sc_bv<W> unhex(const std::string &s) {
  sc_bv<W> v = 0;
  int k = 0;
  for (int i = (int)s.size() - 1; i >= 0; i--) {
    char c = s[i];
    int d = c <= '9' ? c - '0' : c - 'a' + 10;
    for (int b = 0; b < 4; b++, k++)
      if (k < W)
        v[k] = (d >> b) & 1;
  }
  return v;
}

// A repeating pattern of run lengths: ready for a cycles, not ready for b, ...
struct Pattern {
  std::vector<int> runs;
  size_t i = 0;
  int left = -1;
  bool next() {
    if (runs.empty())
      return true;
    if (left < 0) {
      i = 0;
      left = runs[0];
    }
    int guard = 0;
    while (left == 0 && guard++ < 64) {
      i = (i + 1) % runs.size();
      left = runs[i];
    }
    left--;
    return i % 2 == 0;
  }
};

struct AxisItem {
  int gap;
  sc_bv<AXIS_IDW> tid;
  sc_bv<AXIS_DESTW> tdest;
  sc_bv<AXIS_USERW> tuser;
  bool tlast;
  sc_bv<AXIS_MAX_DATAW> tdata;
};

// One item on an AXI-MM channel
struct MMItem {
  int gap;
  sc_bv<AXI4_IDW> id;
  sc_bv<AXI4_USERW> user;
  sc_bv<AXI4_ADDRW> addr;
  unsigned len, size, burst, resp;
  bool last;
  sc_bv<AXI4_MAX_DATAW> data;
  int after_b = -1; // wait until this many write responses arrived
  int after_r = -1; // wait until this many read words arrived
};

struct PortDesc {
  std::string name; // full name
  int id;
  std::string kind; // as am ms mm
  unsigned dataw, type;
  bool placed = true;
  bool freew = false; // write addresses and write data are offered independently
};

enum { AR = 0, AW = 1, W = 2, R = 3, B = 4 };
static const char *chname[] = {"AR", "AW", "W", "R", "B"};

struct Port {
  PortDesc d;
  axis_slave_port *as = nullptr;
  axis_master_port *am = nullptr;
  aximm_slave_port *ms = nullptr;
  aximm_master_port *mm = nullptr;
  // axis sender
  std::vector<AxisItem> sends;
  size_t si = 0;
  bool driving = false;
  int gap = -1;
  // axis receiver
  Pattern ready;
  bool pv = false, pr = false;
  std::string pfields;
  // aximm senders (per channel) and receivers
  std::vector<MMItem> q[5];
  size_t qi[5] = {0, 0, 0, 0, 0};
  bool qd[5] = {false, false, false, false, false};
  bool qsaw[5] = {false, false, false, false, false};
  int qgap[5] = {-1, -1, -1, -1, -1};
  Pattern qready[5];
  long got[5] = {0, 0, 0, 0, 0};
  bool rv[5] = {false}, rr[5] = {false};
  std::string rf[5];
  int wleft = 0; // write beats left before the next write address may go
};

class Endpoint : public RADSimModule {
public:
  sc_in<bool> rst;
  RADSimDesignContext *ctx;
  std::vector<Port *> ports;
  int nedges = 0;
  Endpoint(const sc_module_name &name, RADSimDesignContext *c, std::vector<PortDesc> &pds) : RADSimModule(name, c), ctx(c) {
    for (auto &pd : pds) {
      Port *p = new Port;
      p->d = pd;
      if (pd.kind == "as")
        p->as = new axis_slave_port;
      else if (pd.kind == "am")
        p->am = new axis_master_port;
      else if (pd.kind == "ms")
        p->ms = new aximm_slave_port;
      else
        p->mm = new aximm_master_port;
      ports.push_back(p);
    }
    SC_CTHREAD(Tick, clk.pos());
    reset_signal_is(rst, true);
    RegisterModuleInfo();
  }
  SC_HAS_PROCESS(Endpoint);
  void RegisterModuleInfo() {
    for (Port *p : ports) {
      if (!p->d.placed)
        continue;
      std::string n = p->d.name;
      if (p->as)
        RegisterAxisSlavePort(n, p->as, p->d.dataw, p->d.type);
      else if (p->am)
        RegisterAxisMasterPort(n, p->am, p->d.dataw, p->d.type);
      else if (p->ms)
        RegisterAximmSlavePort(n, p->ms, p->d.dataw);
      else
        RegisterAximmMasterPort(n, p->mm, p->d.dataw);
    }
  }

  void stepAxisSend(Port *p) {
    axis_master_port *a = p->am;
    if (p->driving && a->tready.read()) {
      fprintf(logf_, "A %d %llu %zu\n", p->d.id, now(), p->si);
      event();
      p->driving = false;
      // an idle port drives anything
      AxisItem &o = p->sends[p->si];
      a->tdata.write(~o.tdata);
      a->tuser.write(~o.tuser);
      a->tlast.write(!o.tlast);
      a->tid.write(~o.tid);
      a->tdest.write(~o.tdest);
      p->si++;
      p->gap = -1;
    }
    if (!p->driving) {
      if (p->si < p->sends.size()) {
        if (p->gap < 0)
          p->gap = p->sends[p->si].gap;
        if (p->gap == 0) {
          AxisItem &s = p->sends[p->si];
          a->tvalid.write(true);
          a->tdata.write(s.tdata);
          a->tuser.write(s.tuser);
          a->tlast.write(s.tlast);
          a->tid.write(s.tid);
          a->tdest.write(s.tdest);
          p->driving = true;
        } else {
          p->gap--;
          a->tvalid.write(false);
        }
      } else {
        a->tvalid.write(false);
      }
    }
  }
  void stepAxisRecv(Port *p) {
    axis_slave_port *a = p->as;
    bool v = a->tvalid.read(), r = a->tready.read();
    std::string f;
    if (v) {
      char b[64];
      snprintf(b, sizeof b, "%u %u ", (unsigned)a->tid.read().to_uint(), (unsigned)a->tdest.read().to_uint());
      f = b + hex<AXIS_USERW>(a->tuser.read()) + (a->tlast.read() ? " 1 " : " 0 ") + hex<AXIS_MAX_DATAW>(a->tdata.read());
    }
    if (p->pv && !p->pr && (!v || f != p->pfields)) {
      fprintf(logf_, "H %d %llu %s | %s\n", p->d.id, now(), p->pfields.c_str(), f.c_str());
    }
    if (v && r) {
      fprintf(logf_, "R %d %llu %s\n", p->d.id, now(), f.c_str());
      event();
    }
    p->pv = v;
    p->pr = r;
    p->pfields = f;
    a->tready.write(p->ready.next());
  }

  // ---- AXI-MM
  bool chReady(Port *p, int c) {
    if (p->mm)
      return c == AR ? p->mm->arready.read() : c == AW ? p->mm->awready.read() : p->mm->wready.read();
    return c == R ? p->ms->rready.read() : p->ms->bready.read();
  }
  void chValid(Port *p, int c, bool v) {
    if (p->mm)
      (c == AR ? p->mm->arvalid : c == AW ? p->mm->awvalid : p->mm->wvalid).write(v);
    else
      (c == R ? p->ms->rvalid : p->ms->bvalid).write(v);
  }
  void chDrive(Port *p, int c, MMItem &m) {
    if (c == AR) {
      p->mm->arid.write(m.id);
      p->mm->araddr.write(m.addr);
      p->mm->arlen.write(m.len);
      p->mm->arsize.write(m.size);
      p->mm->arburst.write(m.burst);
      p->mm->aruser.write(m.user);
    } else if (c == AW) {
      p->mm->awid.write(m.id);
      p->mm->awaddr.write(m.addr);
      p->mm->awlen.write(m.len);
      p->mm->awsize.write(m.size);
      p->mm->awburst.write(m.burst);
      p->mm->awuser.write(m.user);
    } else if (c == W) {
      p->mm->wid.write(m.id);
      p->mm->wdata.write(m.data);
      p->mm->wlast.write(m.last);
      p->mm->wuser.write(m.user);
    } else if (c == R) {
      p->ms->rid.write(m.id);
      p->ms->rdata.write(m.data);
      p->ms->rresp.write(m.resp);
      p->ms->rlast.write(m.last);
      p->ms->ruser.write(m.user);
    } else {
      p->ms->bid.write(m.id);
      p->ms->bresp.write(m.resp);
      p->ms->buser.write(m.user);
    }
  }
  bool mayGo(Port *p, int c) {
    MMItem &m = p->q[c][p->qi[c]];
    if (m.after_b >= 0 && p->got[B] < m.after_b)
      return false;
    if (m.after_r >= 0 && p->got[R] < m.after_r)
      return false;
    if (p->d.freew)
      return true;
    if (c == AW)
      return p->wleft == 0;
    if (c == W)
      return p->wleft > 0;
    return true;
  }
  void accepted(Port *p, int c) {
    fprintf(logf_, "M %d %llu %s %zu\n", p->d.id, now(), chname[c], p->qi[c]);
    event();
    if (c == AW) {
      // count this burst's data beats
      size_t k = p->qi[W];
      p->wleft = 0;
      while (k < p->q[W].size()) {
        p->wleft++;
        if (p->q[W][k].last)
          break;
        k++;
      }
    } else if (c == W)
      p->wleft--;
    p->qi[c]++;
    p->qd[c] = false;
    p->qgap[c] = -1;
  }
  void stepSend(Port *p, int c) {
    if (p->qd[c] && chReady(p, c)) {
      // an idle channel drives anything
      MMItem o = p->q[c][p->qi[c]];
      o.id = ~o.id;
      o.user = ~o.user;
      o.addr = ~o.addr;
      o.data = ~o.data;
      o.len = ~o.len & ((1u << AXI4_LENW) - 1);
      o.size = ~o.size & ((1u << AXI4_SIZEW) - 1);
      o.burst = ~o.burst & ((1u << AXI4_BURSTW) - 1);
      o.resp = ~o.resp & ((1u << AXI4_RESPW) - 1);
      o.last = !o.last;
      chDrive(p, c, o);
      accepted(p, c);
    }
    if (!p->qd[c]) {
      chValid(p, c, false);
      if (p->qi[c] < p->q[c].size() && mayGo(p, c)) {
        if (p->qgap[c] < 0)
          p->qgap[c] = p->q[c][p->qi[c]].gap;
        if (p->qgap[c] == 0) {
          chDrive(p, c, p->q[c][p->qi[c]]);
          chValid(p, c, true);
          p->qd[c] = true;
        } else
          p->qgap[c]--;
      }
    }
  }
  // A receiving channel: takes a transfer when VALID and READY are both high at
  // the clock edge, and watches that a waiting transfer is held unchanged
  void stepMMRecv(Port *p, int c, bool v, bool r, const std::string &f) {
    if (p->rv[c] && !p->rr[c] && (!v || f != p->rf[c]))
      fprintf(logf_, "H %d %llu %s %s | %s\n", p->d.id, now(), chname[c], p->rf[c].c_str(), f.c_str());
    if (v && r) {
      fprintf(logf_, "N %d %llu %s %s\n", p->d.id, now(), chname[c], f.c_str());
      p->got[c]++;
      event();
    }
    p->rv[c] = v;
    p->rr[c] = r;
    p->rf[c] = f;
  }
  template <class I, class U, class A, class L, class S, class T>
  std::string reqFields(I &id, U &user, A &addr, L &len, S &size, T &burst) {
    char b[64];
    snprintf(b, sizeof b, " %u %u %u", (unsigned)len.read().to_uint(), (unsigned)size.read().to_uint(), (unsigned)burst.read().to_uint());
    return std::to_string(id.read().to_uint()) + " " + hex<AXI4_USERW>(user.read()) + " " + hex<AXI4_ADDRW>(addr.read()) + b;
  }
  void stepMM(Port *p) {
    std::string f;
    if (p->mm) {
      aximm_master_port *a = p->mm;
      bool v = a->rvalid.read();
      if (v)
        f = std::to_string(a->rid.read().to_uint()) + " " + hex<AXI4_USERW>(a->ruser.read()) + " " +
            std::to_string(a->rresp.read().to_uint()) + (a->rlast.read() ? " 1 " : " 0 ") + hex<AXI4_MAX_DATAW>(a->rdata.read());
      stepMMRecv(p, R, v, a->rready.read(), f);
      v = a->bvalid.read();
      f.clear();
      if (v)
        f = std::to_string(a->bid.read().to_uint()) + " " + hex<AXI4_USERW>(a->buser.read()) + " " + std::to_string(a->bresp.read().to_uint());
      stepMMRecv(p, B, v, a->bready.read(), f);
      // a beat may follow its address in the same step, never overtake it
      stepSend(p, W);
      stepSend(p, AW);
      stepSend(p, AR);
      a->rready.write(p->qready[R].next());
      a->bready.write(p->qready[B].next());
    } else {
      aximm_slave_port *a = p->ms;
      bool v = a->arvalid.read();
      if (v)
        f = reqFields(a->arid, a->aruser, a->araddr, a->arlen, a->arsize, a->arburst);
      stepMMRecv(p, AR, v, a->arready.read(), f);
      v = a->awvalid.read();
      f.clear();
      if (v)
        f = reqFields(a->awid, a->awuser, a->awaddr, a->awlen, a->awsize, a->awburst);
      stepMMRecv(p, AW, v, a->awready.read(), f);
      v = a->wvalid.read();
      f.clear();
      if (v)
        f = std::to_string(a->wid.read().to_uint()) + " " + hex<AXI4_USERW>(a->wuser.read()) + (a->wlast.read() ? " 1 " : " 0 ") +
            hex<AXI4_MAX_DATAW>(a->wdata.read());
      stepMMRecv(p, W, v, a->wready.read(), f);
      stepSend(p, R);
      stepSend(p, B);
      a->arready.write(p->qready[AR].next());
      a->awready.write(p->qready[AW].next());
      a->wready.write(p->qready[W].next());
    }
  }

  void Tick() {
    for (Port *p : ports) {
      if (p->am)
        p->am->Reset();
      else if (p->as)
        p->as->tready.write(false);
      else if (p->mm)
        p->mm->Reset();
      else
        p->ms->Reset();
    }
    wait();
    while (true) {
      if (nedges < 3) {
        fprintf(logf_, "K %s %llu\n", name(), now());
        nedges++;
      }
      for (Port *p : ports) {
        if (p->am)
          stepAxisSend(p);
        else if (p->as)
          stepAxisRecv(p);
        else
          stepMM(p);
      }
      wait();
    }
  }
};

struct ModDesc {
  std::string name, type; // ep, mem
  int dram_id = 0;
  std::string init;
  std::vector<PortDesc> ports;
};

struct RadDesc {
  std::vector<ModDesc> mods;
  bool noc = true;
};

class Top : public RADSimDesignTop {
public:
  sc_in<bool> rst;
  std::vector<Endpoint *> eps;
  std::map<std::string, mem_controller *> mems;
  std::vector<aximm_signal *> links;
  std::vector<sc_clock *> clks;
  RADSimDesignContext *ctx;
  Top(const sc_module_name &name, RADSimDesignContext *c, RadDesc &rd, std::vector<std::tuple<std::string, std::string, int>> &lk,
      double direct_clk, std::vector<double> &mem_clks)
      : sc_module(name), RADSimDesignTop(c), ctx(c) {
    for (auto &m : rd.mods) {
      if (m.type == "ep") {
        Endpoint *e = new Endpoint(m.name.c_str(), c, m.ports);
        e->rst(rst);
        eps.push_back(e);
      } else {
        mem_controller *mc = new mem_controller(m.name.c_str(), m.dram_id, c, m.init);
        mc->rst(rst);
        sc_clock *k = new sc_clock((m.name + "_memclk").c_str(), mem_clks.size() > (size_t)m.dram_id ? mem_clks[m.dram_id] : 1.0, SC_NS);
        clks.push_back(k);
        mc->mem_clk(*k);
        mems[m.name] = mc;
      }
    }
    this->connectPortalReset(&rst);
    if (rd.noc) {
      ctx->BuildDesignContext("x.place", "x.clks");
      ctx->CreateSystemNoCs(rst);
      ctx->ConnectModulesToNoC();
    } else {
      sc_clock *k = new sc_clock("direct_clk", direct_clk, SC_NS);
      clks.push_back(k);
      for (Endpoint *e : eps)
        e->clk(*k);
      for (auto &m : mems)
        m.second->clk(*k);
      for (auto &l : lk) {
        Port *p = nullptr;
        for (Endpoint *e : eps)
          for (Port *q : e->ports)
            if (q->d.name == std::get<0>(l))
              p = q;
        aximm_signal *s = new aximm_signal;
        links.push_back(s);
        s->Connect(*p->mm, mems[std::get<1>(l)]->mem_channels[std::get<2>(l)]);
      }
#ifndef SINGLE_RAD
      portal_inst->clk(*k);
#endif
    }
  }
};

class Sys : public RADSimDesignSystem {
public:
  sc_signal<bool> rst;
  Top *top;
  Sys(const sc_module_name &name, RADSimDesignContext *c, RadDesc &rd, std::vector<std::tuple<std::string, std::string, int>> &lk,
      double direct_clk, std::vector<double> &mc)
      : sc_module(name) {
    top = new Top("top", c, rd, lk, direct_clk, mc);
    top->rst(rst);
    this->design_dut_inst = top;
  }
};

#ifndef SINGLE_RAD
// Drives the device side of every portal and watches both of its outer ports
// (used without a NoC: the portal's network-side ports are driven here)
class Irad : public sc_module {
public:
  sc_in<bool> clk, rst;
  struct Dev {
    axis_signal to_portal, from_portal;     // network side
    axis_master_port drv;                   // drives to_portal
    axis_slave_port rcv;                    // receives from_portal
    std::vector<AxisItem> sends;
    size_t si = 0;
    bool driving = false;
    int gap = -1;
    Pattern ready;
    bool pv = false, pr = false;
    std::string pf;
    Top *top;
  };
  std::vector<Dev *> devs;
  Irad(const sc_module_name &n, int num) : sc_module(n) {
    for (int i = 0; i < num; i++)
      devs.push_back(new Dev);
    SC_CTHREAD(Tick, clk.pos());
    reset_signal_is(rst, true);
  }
  SC_HAS_PROCESS(Irad);
  template <class P> std::string fields(P &a) {
    char b[64];
    snprintf(b, sizeof b, "%u ", (unsigned)a.tdest.read().to_uint());
    return b + hex<AXIS_USERW>(a.tuser.read()) + (a.tlast.read() ? " 1 " : " 0 ") + hex<AXIS_MAX_DATAW>(a.tdata.read());
  }
  void Tick() {
    for (Dev *d : devs) {
      d->drv.Reset();
      d->rcv.tready.write(false);
    }
    wait();
    long cyc = 0;
    while (true) {
      cyc++;
      for (size_t i = 0; i < devs.size(); i++) {
        Dev *d = devs[i];
        // outer side of the portal, observed
        axis_master_port &om = d->top->design_top_portal_axis_master;
        axis_slave_port &os = d->top->design_top_portal_axis_slave;
        bool rdy = om.tready.read();
        fprintf(logf_, "I %zu %llu %d %d\n", i, now(), om.tvalid->read() ? 1 : 0, rdy ? 1 : 0);
        if (om.tvalid->read() && rdy) {
          char b[64];
          snprintf(b, sizeof b, "%u ", (unsigned)om.tdest->read().to_uint());
          fprintf(logf_, "X %zu %llu %s%s %d %s\n", i, now(), b, hex<AXIS_USERW>(om.tuser->read()).c_str(), om.tlast->read() ? 1 : 0,
                  hex<AXIS_MAX_DATAW>(om.tdata->read()).c_str());
          event();
        }
        if (os.tvalid.read() && os.tready->read()) {
          fprintf(logf_, "Y %zu %llu %s\n", i, now(), fields(os).c_str());
          event();
        }
        // network side
        if (d->driving && d->drv.tready.read()) {
          fprintf(logf_, "A %zu %llu %zu\n", i, now(), d->si);
          event();
          d->driving = false;
          d->si++;
          d->gap = -1;
        }
        if (!d->driving) {
          d->drv.tvalid.write(false);
          if (d->si < d->sends.size()) {
            if (d->gap < 0)
              d->gap = d->sends[d->si].gap;
            if (d->gap == 0) {
              AxisItem &s = d->sends[d->si];
              d->drv.tvalid.write(true);
              d->drv.tdata.write(s.tdata);
              d->drv.tuser.write(s.tuser);
              d->drv.tlast.write(s.tlast);
              d->drv.tid.write(s.tid);
              d->drv.tdest.write(s.tdest);
              d->driving = true;
            } else
              d->gap--;
          }
        }
        bool v = d->rcv.tvalid.read(), r = d->rcv.tready.read();
        std::string f = v ? fields(d->rcv) : std::string();
        if (d->pv && !d->pr && (!v || f != d->pf))
          fprintf(logf_, "H %zu %llu %s | %s\n", i, now(), d->pf.c_str(), f.c_str());
        if (v && r) {
          fprintf(logf_, "R %zu %llu %s\n", i, now(), f.c_str());
          event();
        }
        d->pv = v;
        d->pr = r;
        d->pf = f;
        d->rcv.tready.write(d->ready.next());
      }
      wait();
    }
  }
};
#endif

#ifndef SINGLE_RAD
// Watches what every portal puts on the inter-RAD network
class Mon : public sc_module {
public:
  sc_in<bool> clk;
  std::vector<Top *> tops;
  Mon(const sc_module_name &n) : sc_module(n) { SC_CTHREAD(Tick, clk.pos()); }
  SC_HAS_PROCESS(Mon);
  void Tick() {
    wait();
    while (true) {
      for (size_t i = 0; i < tops.size(); i++) {
        axis_master_port &om = tops[i]->design_top_portal_axis_master;
        if (om.tvalid->read() && om.tready.read())
          fprintf(logf_, "X %zu %llu %u %s %d %s\n", i, now(), (unsigned)om.tdest->read().to_uint(), hex<AXIS_USERW>(om.tuser->read()).c_str(),
                  om.tlast->read() ? 1 : 0, hex<AXIS_MAX_DATAW>(om.tdata->read()).c_str());
      }
      wait();
    }
  }
};
#endif

int sc_main(int argc, char *argv[]) {
  std::string dir = argc > 1 ? argv[1] : ".";
  logf_ = fopen((dir + "/out.log").c_str(), "w");
  setvbuf(logf_, nullptr, _IOFBF, 1 << 20);
  gWatchOut = &cout;

  int nrads = 1;
  double maxns = 100000, drainns = 0, stallns = 5000, rstns = 50, direct_clk = 1.0;
  bool stats = false, dstats = false, ftrace = false;
  struct MapQ {
    int rad;
    std::string mem;
    unsigned ch;
    unsigned long long addr;
  };
  std::vector<MapQ> mapqs;
  long flows = 0;
  std::vector<double> mem_clks;
  std::vector<RadDesc> rads(1);
  std::vector<std::tuple<std::string, std::string, int>> links;
  struct Script {
    int rad;
    std::string port;
    std::vector<AxisItem> sends;
    Pattern ready;
    std::vector<MMItem> q[5];
    Pattern qready[5];
  };
  std::map<std::pair<int, std::string>, Script> scr;
  std::vector<std::pair<int, std::string>> queries;
  int cur = 0, next_id = 0;
  bool irad_direct = false;
  {
    std::ifstream f(dir + "/scenario.txt");
    std::string line;
    while (std::getline(f, line)) {
      std::stringstream ss(line);
      std::string op;
      ss >> op;
      if (op == "rads") {
        ss >> nrads;
        rads.resize(nrads);
      } else if (op == "maxns")
        ss >> maxns;
      else if (op == "drainns")
        ss >> drainns;
      else if (op == "stallns")
        ss >> stallns;
      else if (op == "rstns")
        ss >> rstns;
      else if (op == "stats")
        stats = true;
      else if (op == "ftrace")
        ftrace = true;
      else if (op == "dstats")
        dstats = true;
      else if (op == "mapq") {
        MapQ q;
        ss >> q.mem >> q.ch >> std::hex >> q.addr >> std::dec;
        q.rad = cur;
        mapqs.push_back(q);
      } else if (op == "flows")
        ss >> flows;
      else if (op == "want")
        ss >> want_events;
      else if (op == "rad")
        ss >> cur;
      else if (op == "direct") {
        ss >> direct_clk;
        rads[cur].noc = false;
      } else if (op == "irad") {
        irad_direct = true;
      } else if (op == "memclk") {
        double d;
        while (ss >> d)
          mem_clks.push_back(d);
      } else if (op == "mod") {
        ModDesc m;
        ss >> m.name >> m.type;
        if (m.type == "mem")
          ss >> m.dram_id >> m.init;
        rads[cur].mods.push_back(m);
      } else if (op == "port") {
        PortDesc p;
        std::string flags;
        ss >> p.name >> p.kind >> p.dataw >> p.type >> flags;
        p.id = next_id++;
        p.name = rads[cur].mods.back().name + "." + p.name;
        p.placed = flags.find('u') == std::string::npos;
      p.freew = flags.find('w') != std::string::npos;
        rads[cur].mods.back().ports.push_back(p);
      } else if (op == "link") {
        std::string a, b;
        int c;
        ss >> a >> b >> c;
        links.push_back(std::make_tuple(a, b, c));
      } else if (op == "ready") {
        std::string pn;
        ss >> pn;
        int v;
        while (ss >> v)
          scr[{cur, pn}].ready.runs.push_back(v);
      } else if (op == "mready") {
        std::string pn, ch;
        ss >> pn >> ch;
        int c = ch == "AR" ? AR : ch == "AW" ? AW : ch == "W" ? W : ch == "R" ? R : B;
        int v;
        while (ss >> v)
          scr[{cur, pn}].qready[c].runs.push_back(v);
      } else if (op == "s") {
        std::string pn, tu, td;
        AxisItem a;
        unsigned tid, tdest;
        int last;
        ss >> pn >> a.gap >> tid >> tdest >> tu >> last >> td;
        a.tid = tid;
        a.tdest = tdest;
        a.tlast = last;
        a.tuser = unhex<AXIS_USERW>(tu);
        a.tdata = unhex<AXIS_MAX_DATAW>(td);
        scr[{cur, pn}].sends.push_back(a);
      } else if (op == "m") {
        // m port ch gap id user after_b after_r  addr len size burst | last resp data
        std::string pn, ch, us, ad, da;
        MMItem m;
        unsigned id;
        ss >> pn >> ch >> m.gap >> id >> us >> m.after_b >> m.after_r;
        int c = ch == "AR" ? AR : ch == "AW" ? AW : ch == "W" ? W : ch == "R" ? R : B;
        m.id = id;
        m.user = unhex<AXI4_USERW>(us);
        m.last = false;
        if (c == AR || c == AW) {
          ss >> ad >> m.len >> m.size >> m.burst;
          m.addr = unhex<AXI4_ADDRW>(ad);
        } else {
          int last;
          ss >> last >> m.resp;
          m.last = last;
          if (c != B) {
            ss >> da;
            m.data = unhex<AXI4_MAX_DATAW>(da);
          }
        }
        scr[{cur, pn}].q[c].push_back(m);
      } else if (op == "query") {
        std::string pn;
        ss >> pn;
        queries.push_back({cur, pn});
      }
    }
  }

  radsim_config.ResizeAll(nrads);
  ParseRADSimKnobs(dir + "/sim/radsim_knobs");
  RADSimCluster *cluster = new RADSimCluster(nrads);
  sim_log.SetLogSettings(radsim_config.GetIntKnobShared("telemetry_log_verbosity"), dir + "/sim.log");
  int num_traces = radsim_config.GetIntKnobShared("telemetry_num_traces");
  sim_trace_probe.SetTraceRecordingSettings(dir + "/sim.trace", num_traces);

  std::vector<Sys *> sys;
  for (int r = 0; r < nrads; r++) {
    Sys *s = new Sys(("sys" + std::to_string(r)).c_str(), cluster->all_rads[r], rads[r], links, direct_clk, mem_clks);
    sys.push_back(s);
    cluster->StoreSystem(s);
    s->rst.write(true);
    for (Endpoint *e : s->top->eps)
      for (Port *p : e->ports) {
        auto it = scr.find({r, p->d.name});
        if (it != scr.end()) {
          p->sends = it->second.sends;
          p->ready = it->second.ready;
          for (int c = 0; c < 5; c++) {
            p->q[c] = it->second.q[c];
            p->qready[c] = it->second.qready[c];
          }
        }
      }
  }
  for (auto &q : queries) {
    RADSimDesignContext *c = cluster->all_rads[q.first];
    std::string n = q.second;
    auto t = c->GetPortPlacement(n);
    bool mm = n.find(".mem_channel_") != std::string::npos;
    for (auto &m : rads[q.first].mods)
      for (auto &p : m.ports)
        if (p.name == n && (p.kind == "mm" || p.kind == "ms"))
          mm = true;
    fprintf(logf_, "P %d %s %u %u %u %u %u %llx\n", q.first, n.c_str(), std::get<0>(t), std::get<1>(t), std::get<2>(t),
            c->GetPortDestinationID(n), c->GetPortInterfaceID(n), mm ? (unsigned long long)c->GetPortBaseAddress(n) : 0ull);
  }

  for (auto &q : mapqs) {
    mem_controller *mc = sys[q.rad]->top->mems[q.mem];
    unsigned long long t = mc->AddressMapping(q.addr, q.ch);
    fprintf(logf_, "T %u %llx %llx %u\n", q.ch, (unsigned long long)q.addr, t, mc->ChannelFromAddr(t));
  }
  for (size_t y = 0; y < sys.size(); y++)
    for (auto &m : sys[y]->top->mems)
      fprintf(logf_, "V %zu %s %u %u\n", y, m.first.c_str(), m.second->GetNumChannels(), m.second->GetAddressableWordSize());
  sc_clock *irclk = nullptr;
  if (nrads > 1) {
    irclk = new sc_clock("inter_rad_clk", radsim_config.GetDoubleKnobShared("sim_driver_period"), SC_NS);
    RADSimInterRad *box = new RADSimInterRad("inter_rad_box", irclk, cluster);
    for (int r = 0; r < nrads; r++)
      box->ConnectClusterInterfaces(r);
  }
#ifndef SINGLE_RAD
  if (nrads > 1 && !irad_direct) {
    Mon *mon = new Mon("mon");
    mon->clk(*irclk);
    for (int r = 0; r < nrads; r++)
      mon->tops.push_back(sys[r]->top);
  }
  Irad *ir = nullptr;
  sc_signal<bool> irst;
  if (irad_direct) {
    ir = new Irad("irad", nrads);
    ir->clk(*irclk);
    ir->rst(irst);
    irst.write(true);
    for (int r = 0; r < nrads; r++) {
      Irad::Dev *d = ir->devs[r];
      d->top = sys[r]->top;
      d->to_portal.Connect(d->drv, sys[r]->top->portal_inst->axis_portal_slave_interface);
      d->from_portal.Connect(sys[r]->top->portal_inst->axis_portal_master_interface, d->rcv);
      auto it = scr.find({r, "portal"});
      if (it != scr.end()) {
        d->sends = it->second.sends;
        d->ready = it->second.ready;
      }
    }
  }
#endif

  sc_start(rstns, SC_NS);
  for (Sys *s : sys)
    s->rst.write(false);
#ifndef SINGLE_RAD
  irst.write(false);
#endif
  last_event_ps = now();
  const char *end = "max";
  while (now() < maxns * 1000) {
    sc_start(200, SC_NS);
    if (total_events >= want_events) {
      end = "done";
      break;
    }
    if (now() - last_event_ps > stallns * 1000) {
      end = "stall";
      break;
    }
  }
  if (std::string(end) == "done" && drainns > 0)
    sc_start(drainns, SC_NS);
  fprintf(logf_, "E %s %llu %ld %ld\n", end, now(), total_events, want_events);
  fclose(logf_);
  if (stats)
    NoCTransactionTelemetry::DumpStatsToFile(dir + "/stats.csv");
  if (ftrace)
    NoCFlitTelemetry::DumpNoCFlitTracesToFile(dir + "/ftrace.csv");
  if (flows) {
    FILE *f = fopen((dir + "/flows.bw").c_str(), "w");
    for (int r = 0; r < nrads; r++) {
      auto bw = NoCTransactionTelemetry::DumpTrafficFlows(dir + "/flows_rad" + std::to_string(r), flows, cluster->all_rads[r]->GetNodeModuleNames(), r);
      for (double d : bw)
        fprintf(f, "%d %.17g\n", r, d);
    }
    fclose(f);
  }
  if (dstats)
    for (Sys *y : sys)
      for (auto &m : y->top->mems)
        m.second->PrintStats();
  fflush(stdout);
  _exit(0);
}
