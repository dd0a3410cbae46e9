// Drives one Booksim network cycle by cycle, as a traffic source and sink at
// every node that respects the credit protocol.
// usage: netsim <config> < scenario
//   rseed N             harness choices          bseed N      Booksim's own random numbers
//   open N              packets a node may have open at once (on different VCs)
//   hold P D            with probability P% a receiver keeps a flit's buffer for up to D cycles
//   stall N             cycles without progress that count as stuck
//   p t src dest type size pri
//   routes              instead of simulating, print what the routing function proposes
// Output: I t id vc | E t node id vc head tail pid src ok | D t | S t | Q ... | R/W ... lines, END
#include "bsmain.hpp"
#include "booksim_config.hpp"
#include "network.hpp"
#include "routefunc.hpp"
#include "buffer_state.hpp"
#include "random_utils.hpp"
#include "router.hpp"
#include <cstdio>
#include <deque>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
using namespace std;

static int now_ = 0;
int GetSimTime() { return now_; }

struct Pkt { int t, src, dest, type, size, pri, pid; };
struct Open { Pkt p; int sent, vc; };

static Flit *mk(const Pkt &p, int i, int id) {
  Flit *f = Flit::New();
  f->id = id;
  f->pid = p.pid;
  f->src = p.src;
  f->dest = p.dest;
  f->type = (Flit::FlitType)p.type;
  f->head = i == 0;
  f->tail = i == p.size - 1;
  f->pri = p.pri;
  f->cl = 0;
  f->vc = -1;
  f->watch = false;
  f->subnetwork = 0;
  f->ctime = now_;
  f->dest_interface = id * 7 + 3;
  f->data = (void *)(size_t)(id * 16 + 8);
  return f;
}

static void topology(Network *net) {
  // The network: K router port R<router>.<port> or N<node>, latency
  for (int r = 0; r < net->NumRouters(); ++r) {
    const Router *x = net->GetRouter(r);
    printf("O %d %d %d %d\n", r, x->GetID(), x->NumInputs(), x->NumOutputs());
    for (int o = 0; o < x->NumOutputs(); ++o) {
      const FlitChannel *oc = x->GetOutputChannel(o);
      const Router *t = oc->GetSink();
      if (t) printf("K %d %d R %d %d %d\n", x->GetID(), o, t->GetID(), oc->GetSinkPort(), oc->GetLatency());
      else
        for (int j = 0; j < net->NumNodes(); ++j)
          if (net->GetEject(j) == oc) printf("K %d %d N %d %d %d\n", x->GetID(), o, j, 0, oc->GetLatency());
    }
  }
  for (int j = 0; j < net->NumNodes(); ++j)
    printf("M %d %d %d %d\n", j, net->GetInject(j)->GetSink() ? net->GetInject(j)->GetSink()->GetID() : -1, net->GetInject(j)->GetSinkPort(), net->GetInject(j)->GetLatency());
}

static void routes(Network *net, tRoutingFunction rf, const BookSimConfig &cfg, const vector<Pkt> &pk) {
  // For each packet description: walk every proposed output, breadth first,
  // printing router, input, and proposals.
  for (auto &p : pk) {
    Flit *f = mk(p, 0, p.pid);
    OutputSet inj;
    rf(NULL, f, -1, &inj, true);
    printf("W %d %d %d\n", p.src, p.dest, p.type);
    for (auto &e : inj.GetSet()) printf("J %d %d %d\n", e.output_port, e.vc_start, e.vc_end);
    struct St { const Router *r; int in, vc, ph, intm; };
    deque<St> q;
    const FlitChannel *ic = net->GetInject(p.src);
    for (auto &e : inj.GetSet())
      for (int v = e.vc_start; v <= e.vc_end; ++v) q.push_back({ic->GetSink(), ic->GetSinkPort(), v, f->ph, f->intm});
    map<vector<int>, bool> seen;
    int n = 0;
    while (!q.empty() && n < 200000) {
      St s = q.front();
      q.pop_front();
      vector<int> k = {s.r->GetID(), s.in, s.vc, s.ph, s.intm};
      if (seen[k]) continue;
      seen[k] = true;
      ++n;
      f->vc = s.vc;
      f->ph = s.ph;
      f->intm = s.intm;
      OutputSet os;
      rf(s.r, f, s.in, &os, false);
      printf("R %d %d %d %d %d", s.r->GetID(), s.in, s.vc, s.ph, s.intm);
      for (auto &e : os.GetSet()) {
        printf(" | %d %d %d %d", e.output_port, e.vc_start, e.vc_end, e.pri);
        if (e.output_port < 0 || e.output_port >= s.r->NumOutputs()) { printf(" none"); continue; }
        const FlitChannel *oc = s.r->GetOutputChannel(e.output_port);
        int snk = oc->GetSinkPort();
        const Router *t = oc->GetSink();
        if (!t) {
          int nd = -1;
          for (int j = 0; j < net->NumNodes(); ++j) if (net->GetEject(j) == oc) nd = j;
          printf(" N%d", nd);
        } else {
          printf(" R%d.%d p%d i%d", t->GetID(), snk, f->ph, f->intm);
          for (int v = e.vc_start; v <= e.vc_end; ++v) q.push_back({t, snk, v, f->ph, f->intm});
        }
      }
      puts("");
    }
    f->Free();
  }
}

int sc_main(int argc, char **argv) {
  BookSimConfig cfg;
  cfg.ParseFile(argv[1]);
  InitializeRoutingMap(cfg);
  long rseed = 1, bseed = 1;
  int open = 4, holdp = 0, holdd = 0, stall = 3000, order = 0;
  bool ro = false, to = false;
  vector<Pkt> pk;
  string line;
  while (getline(cin, line)) {
    istringstream s(line);
    string k;
    s >> k;
    if (k == "rseed") s >> rseed;
    else if (k == "bseed") s >> bseed;
    else if (k == "open") s >> open;
    else if (k == "hold") s >> holdp >> holdd;
    else if (k == "stall") s >> stall;
    else if (k == "routes") ro = to = true;
    else if (k == "topo") to = true;
    else if (k == "p") {
      Pkt p;
      s >> p.t >> p.src >> p.dest >> p.type >> p.size >> p.pri;
      p.pid = pk.size();
      pk.push_back(p);
    }
  }
  RandomSeed(bseed);
  Network *net = Network::New(cfg, "net");
  if (!net) { puts("NONET"); fflush(stdout); _exit(3); }
  string rn = cfg.GetStr("routing_function") + "_" + cfg.GetStr("topology");
  if (!gRoutingFunctionMap.count(rn)) { puts("NORF"); fflush(stdout); _exit(3); }
  tRoutingFunction rf = gRoutingFunctionMap[rn];
  const int nodes = net->NumNodes();
  printf("NODES %d ROUTERS %d\n", nodes, net->NumRouters());
  if (to) topology(net);
  if (ro) {
    routes(net, rf, cfg, pk);
    puts("END");
    fflush(stdout);
    _exit(0);
  }
  bool la = !cfg.GetInt("routing_delay");
  bool noq = cfg.GetInt("noq") > 0;
  vector<BufferState *> bs(nodes);
  int va = cfg.GetInt("vc_alloc_delay"), sa = cfg.GetInt("sw_alloc_delay");
  int rl = cfg.GetInt("routing_delay") + (cfg.GetInt("speculative") ? max(va, sa) : va + sa);
  for (int n = 0; n < nodes; ++n) {
    bs[n] = new BufferState(cfg, 0, "bs" + to_string(n));
    bs[n]->SetMinLatency(1 + net->GetInject(n)->GetLatency() + rl + net->GetInjectCred(n)->GetLatency());
  }
  mt19937 g(rseed);
  vector<deque<Pkt>> q(nodes);
  for (auto &p : pk) q[p.src].push_back(p);
  // flit ids: consecutive within a packet
  vector<int> base(pk.size() + 1, 0);
  for (size_t i = 0; i < pk.size(); ++i) base[i + 1] = base[i] + pk[i].size;
  vector<vector<Open>> op(nodes);
  vector<multimap<int, int>> due(nodes);       // time -> vc of credits the receiver owes
  vector<int> rr(nodes, 0);
  long total = base[pk.size()], got = 0, sent = 0, credits = 0;
  int last = 0;
  bool done = false;
  int dt = 0;
  while (true) {
    vector<Flit *> ej(nodes, (Flit *)0);
    for (int n = 0; n < nodes; ++n) {
      Flit *f = net->ReadFlit(n);
      if (f) {
        bool ok = f->dest_interface == f->id * 7 + 3 && f->data == (void *)(size_t)(f->id * 16 + 8);
        printf("E %d %d %d %d %d %d %d %d %d\n", now_, n, f->id, f->vc, f->head, f->tail, f->pid, f->src, ok ? 1 : 0);
        ++got;
        last = now_;
        ej[n] = f;
      }
      Credit *c = net->ReadCredit(n);
      if (c) {
        last = now_;
        credits += c->vc.size();
        bs[n]->ProcessCredit(c);
        c->Free();
      }
    }
    net->ReadInputs();
    for (int n = 0; n < nodes; ++n) {
      while ((int)op[n].size() < open && !q[n].empty() && q[n].front().t <= now_) {
        op[n].push_back({q[n].front(), 0, -1});
        q[n].pop_front();
      }
      // one flit per node and cycle: the first of the open packets, in a
      // rotating order, that can go
      int k = op[n].size();
      if (!k) continue;
      int st = rr[n]++ % k;
      for (int i = 0; i < k; ++i) {
        Open &o = op[n][(st + i) % k];
        Flit *f = 0;
        if (o.vc < 0) {
          f = mk(o.p, 0, base[o.p.pid]);
          OutputSet os;
          rf(NULL, f, -1, &os, true);
          auto &e = *os.GetSet().begin();
          int a = e.vc_start, b = e.vc_end, cnt = b - a + 1;
          if (noq) {
            const Router *r = net->GetInject(n)->GetSink();
            f->vc = a;
            rf(r, f, net->GetInject(n)->GetSinkPort(), &f->la_route_set, false);
            f->vc = -1;
            int nx = f->la_route_set.GetSet().begin()->output_port;
            cnt /= r->NumOutputs();
            a += nx * cnt;
            b = a + cnt - 1;
          }
          int off = g() % cnt, v = -1;
          for (int j = 0; j < cnt && v < 0; ++j) {
            int c = a + (off + j) % cnt;
            if (bs[n]->IsAvailableFor(c) && !bs[n]->IsFullFor(c)) v = c;
          }
          if (v < 0) { f->Free(); continue; }
          o.vc = f->vc = v;
          if (la) {
            if (!noq) rf(net->GetInject(n)->GetSink(), f, net->GetInject(n)->GetSinkPort(), &f->la_route_set, false);
          } else {
            f->la_route_set.Clear();
          }
          bs[n]->TakeBuffer(v);
        } else {
          if (bs[n]->IsFullFor(o.vc)) continue;
          f = mk(o.p, o.sent, base[o.p.pid] + o.sent);
          f->vc = o.vc;
        }
        bs[n]->SendingFlit(f);
        f->itime = now_;
        printf("I %d %d %d\n", now_, f->id, f->vc);
        last = now_;
        net->WriteFlit(f, n);
        ++sent;
        if (++o.sent == o.p.size) op[n].erase(op[n].begin() + (st + i) % k);
        break;
      }
    }
    for (int n = 0; n < nodes; ++n) {
      if (ej[n]) {
        int d = holdp && (int)(g() % 100) < holdp ? g() % (holdd + 1) : 0;
        due[n].insert({now_ + d, ej[n]->vc});
        ej[n]->Free();
      }
      Credit *c = 0;
      for (auto it = due[n].begin(); it != due[n].end() && it->first <= now_;) {
        if (!c) c = Credit::New();
        if (c->vc.count(it->second)) { ++it; continue; }
        c->vc.insert(it->second);
        it = due[n].erase(it);
      }
      if (c) net->WriteCredit(c, n);
    }
    net->Evaluate();
    net->WriteOutputs();
    ++now_;
    if (got >= total && !done) {
      done = true;
      dt = now_;
      printf("D %d\n", now_);
    }
    bool pend = false;
    for (int n = 0; n < nodes && !pend; ++n) pend = !due[n].empty();
    int fut = now_;
    for (int n = 0; n < nodes; ++n) if (!q[n].empty()) fut = max(fut, q[n].front().t);
    if (pend) last = now_;
    if (done && now_ > dt + 400 + holdd) break;
    if (!done && now_ - last > stall && fut <= now_) {
      printf("S %d sent %ld got %ld of %ld\n", now_, sent, got, total);
      puts("END");
      fflush(stdout);
      _exit(0);
    }
  }
  printf("C sent %ld credits %ld\n", sent, credits);
  for (int n = 0; n < nodes; ++n) {
    if (bs[n]->Occupancy()) printf("Q node %d occupancy %d\n", n, bs[n]->Occupancy());
    for (int v = 0; v < cfg.GetInt("num_vcs"); ++v)
      if (!bs[n]->IsAvailableFor(v)) printf("Q node %d vc %d taken\n", n, v);
  }
  for (int r = 0; r < net->NumRouters(); ++r) {
    Router *x = net->GetRouter(r);
    for (int o = 0; o < x->NumOutputs(); ++o)
      if (x->GetUsedCredit(o)) printf("Q router %d output %d used %d\n", r, o, x->GetUsedCredit(o));
    for (int i = 0; i < x->NumInputs(); ++i)
      if (x->GetBufferOccupancy(i)) printf("Q router %d input %d holds %d\n", r, i, x->GetBufferOccupancy(i));
  }
  puts("END");
  fflush(stdout);
  _exit(0);
}
