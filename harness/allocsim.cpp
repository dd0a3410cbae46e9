// Drives Booksim's allocators and arbiters with the rounds read from stdin.
//   seed N
//   alloc <type> <inputs> <outputs>      arb <type> <size>      parb <size>
//   r <n> (<in> <out> <label> <in_pri> <out_pri> <rep>)*         allocator round
//       rep=1: a lower-priority request for the pair is added first and replaced
//   r <n> (<in> <id> <pri>)* <update>                            arbiter round
// Output: one line per round.
#include "bsmain.hpp"
#include "booksim_config.hpp"
#include "allocators/allocator.hpp"
#include "arbiters/arbiter.hpp"
#include "arbiters/prio_arb.hpp"
#include "random_utils.hpp"
#include <cstdio>
#include <iostream>
#include <sstream>
#include <unistd.h>
using namespace std;

int GetSimTime() { return 0; }

int sc_main(int, char **) {
  BookSimConfig cfg;
  Allocator *al = 0;
  Arbiter *ar = 0;
  PriorityArbiter *pa = 0;
  int ins = 0, outs = 0;
  string line;
  while (getline(cin, line)) {
    istringstream s(line);
    string k;
    s >> k;
    if (k == "seed") {
      long x;
      s >> x;
      RandomSeed(x);
    } else if (k == "alloc") {
      string t;
      s >> t >> ins >> outs;
      al = Allocator::NewAllocator(0, "al", t, ins, outs, &cfg);
      ar = 0, pa = 0;
      if (!al) { puts("NONE"); fflush(stdout); _exit(3); }
      puts("U");
    } else if (k == "arb") {
      string t;
      s >> t >> ins;
      ar = Arbiter::NewArbiter(0, "ar", t, ins);
      al = 0, pa = 0;
      puts("U");
    } else if (k == "parb") {
      s >> ins;
      pa = new PriorityArbiter(cfg, 0, "pa", ins);
      al = 0, ar = 0;
      puts("U");
    } else if (k == "r") {
      int n;
      s >> n;
      if (al) {
        al->Clear();
        for (int i = 0; i < n; ++i) {
          int in, out, label, ip, op, rep;
          s >> in >> out >> label >> ip >> op >> rep;
          if (rep) {
            // as the routers do when a better request for the pair turns up
            al->AddRequest(in, out, label + 1, ip - 1, op - 1);
            al->RemoveRequest(in, out, label + 1);
          }
          al->AddRequest(in, out, label, ip, op);
        }
        string rr = "R";
        for (int i = 0; i < ins; ++i)
          for (int o = 0; o < outs; ++o)
            if (al->ReadRequest(i, o) >= 0) {
              Allocator::sRequest q;
              bool f = al->ReadRequest(q, i, o);
              char b[96];
              snprintf(b, sizeof b, " %d,%d,%d,%d,%d", i, o, f ? q.label : -9, f ? q.in_pri : -9, f ? q.out_pri : -9);
              rr += b;
            }
        puts(rr.c_str());
        al->Allocate();
        string m = "M";
        for (int i = 0; i < ins; ++i) m += " " + to_string(al->OutputAssigned(i));
        m += " |";
        for (int o = 0; o < outs; ++o) m += " " + to_string(al->InputAssigned(o));
        puts(m.c_str());
      } else if (ar || pa) {
        if (ar) ar->Clear(); else pa->Clear();
        for (int i = 0; i < n; ++i) {
          int in, id, pri;
          s >> in >> id >> pri;
          if (ar) ar->AddRequest(in, id, pri); else pa->AddRequest(in, id, pri);
        }
        int upd;
        s >> upd;
        if (ar) {
          int id = -7, pri = -7, w = ar->Arbitrate(&id, &pri);
          if (upd) ar->UpdateState();
          printf("W %d %d %d %d\n", w, id, pri, ar->LastWinner());
        } else {
          pa->Arbitrate();
          printf("W %d\n", pa->Match());
        }
      }
      fflush(stdout);
    }
  }
  puts("END");
  fflush(stdout);
  _exit(0);
}
