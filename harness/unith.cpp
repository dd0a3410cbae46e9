// Drives the flit value class, the packet slicing helpers, the geometry helpers and the knob store
// directly: one command per line on stdin, one result line each.  Bit strings are binary, MSB first.
#include <systemc.h>
#include <sys/wait.h>
#include <unistd.h>
#include <map>
#include <fstream>
#include <sstream>
#include <noc_utils.hpp>
#include <sc_flit.hpp>
#include <radsim_config.hpp>
#include <radsim_utils.hpp>
#include <radsim_telemetry.hpp>

RADSimConfig radsim_config;
std::ostream *gWatchOut;
SimLog sim_log;
SimTraceRecording sim_trace_probe;

template <class T> static std::string bits(const T &v) {
  std::string s;
  for (int i = v.length() - 1; i >= 0; i--) s += v[i].to_bool() ? '1' : '0';
  return s;
}
template <class T> static void setbits(T &v, const std::string &s) {
  for (size_t i = 0; i < s.size() && (int)i < v.length(); i++) v[s.size() - 1 - i] = s[i] == '1';
}

static std::map<int, sc_flit *> F;
static std::map<int, sc_packet *> P;
static void show(sc_flit &f) {
  printf("%d %d %d %u %s %s %s %u %s\n", f._head, f._tail, (int)f._type, f._vc_id.to_uint(), bits(f._packet_id).c_str(), bits(f._dest).c_str(),
         bits(f._dest_interface).c_str(), f._sim_transaction_id, bits(*f._payload).c_str());
}

static void out(int v) { printf("= %d\n", v); }
static void out(double v) { printf("= %.17g\n", v); }
static void out(const std::string &v) { printf("= %s\n", v.c_str()); }
template <class T> static void out(const std::vector<T> &v) {
  printf("= [%zu]", v.size());
  for (auto &x : v) {
    std::ostringstream o;
    o.precision(17);
    o << x;
    printf(" %s", o.str().c_str());
  }
  printf("\n");
}

static void query(std::istringstream &in) {
  std::string op, key;
  in >> op >> key;
  int a = -1, b = -1;
  in >> a >> b;
  RADSimConfig &c = radsim_config;
  if (op == "is") out(c.GetIntKnobShared(key));
  else if (op == "ds") out(c.GetDoubleKnobShared(key));
  else if (op == "ss") out(c.GetStringKnobShared(key));
  else if (op == "vss") out(c.GetStringVectorKnobShared(key));
  else if (op == "vss1") out(c.GetStringVectorKnobShared(key, a));
  else if (op == "ip") out(c.GetIntKnobPerRad(key, a));
  else if (op == "dp") out(c.GetDoubleKnobPerRad(key, a));
  else if (op == "sp") out(c.GetStringKnobPerRad(key, a));
  else if (op == "vip") out(c.GetIntVectorKnobPerRad(key, a));
  else if (op == "vdp") out(c.GetDoubleVectorKnobPerRad(key, a));
  else if (op == "vsp") out(c.GetStringVectorKnobPerRad(key, a));
  else if (op == "vip1") out(c.GetIntVectorKnobPerRad(key, b, a));
  else if (op == "vdp1") out(c.GetDoubleVectorKnobPerRad(key, b, a));
  else if (op == "vsp1") out(c.GetStringVectorKnobPerRad(key, b, a));
  else if (op == "his") out((int)c.HasIntKnobShared(key));
  else if (op == "hds") out((int)c.HasDoubleKnobShared(key));
  else if (op == "hss") out((int)c.HasStringKnobShared(key));
  else if (op == "hvss") out((int)c.HasStringVectorKnobShared(key));
  else if (op == "hip") out((int)c.HasIntKnobPerRad(key, a));
  else if (op == "hsp") out((int)c.HasStringKnobPerRad(key, a));
  else if (op == "hvip") out((int)c.HasIntVectorKnobPerRad(key, a));
  else if (op == "hvdp") out((int)c.HasDoubleVectorKnobPerRad(key, a));
  else if (op == "hvsp") out((int)c.HasStringVectorKnobPerRad(key, a));
  else printf("? %s\n", op.c_str());
}

int sc_main(int, char **) {
  gWatchOut = &std::cout;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    int a = 0, b = 0;
    if (op == "widths") {
      printf("%d %d %d %d %d %d %d\n", NOC_LINKS_PAYLOAD_WIDTH, AXIS_PAYLOADW, AXI4_PAYLOADW, NOC_LINKS_VCID_WIDTH, NOC_LINKS_PACKETID_WIDTH,
             NOC_LINKS_DEST_WIDTH, NOC_LINKS_DEST_INTERFACE_WIDTH);
    } else if (op == "new") {
      in >> a;
      F[a] = new sc_flit();
    } else if (op == "make") {
      int h, t, ty, vc;
      unsigned tr;
      std::string d, di, pi;
      in >> a >> h >> t >> ty >> vc >> pi >> d >> di >> tr;
      sc_bv<NOC_LINKS_DEST_WIDTH> db;
      sc_bv<NOC_LINKS_DEST_INTERFACE_WIDTH> dib;
      sc_bv<NOC_LINKS_PACKETID_WIDTH> pb;
      setbits(db, d);
      setbits(dib, di);
      setbits(pb, pi);
      sc_uint<NOC_LINKS_DEST_WIDTH> du = db.to_uint();
      F[a] = new sc_flit(h, t, (Flit::FlitType)ty, vc, du, dib, pb, tr);
    } else if (op == "copy") {
      in >> a >> b;
      F[a] = new sc_flit(*F[b]);
    } else if (op == "assign") {
      in >> a >> b;
      *F[a] = *F[b];
    } else if (op == "data") {
      std::string s;
      in >> a >> s;
      *F[a]->_payload = 0;
      setbits(*F[a]->_payload, s);
    } else if (op == "slice" || op == "slicem") {       // one flit of a packet
      std::string s;
      in >> a >> b >> s;
      if (op == "slice") {
        sc_bv<AXIS_PAYLOADW> p;
        setbits(p, s);
        set_flit_payload(*F[a], p, b);
      } else {
        sc_bv<AXI4_PAYLOADW> p;
        setbits(p, s);
        set_flit_payload(*F[a], p, b);
      }
    } else if (op == "free") {
      in >> a;
      F[a]->FreeFlit();
      delete F[a];
      F.erase(a);
    } else if (op == "show") {
      in >> a;
      show(*F[a]);
    } else if (op == "pnew") {
      in >> a;
      P[a] = new sc_packet();
    } else if (op == "padd") {
      in >> a >> b;
      P[a]->AddFlit(*F[b]);
    } else if (op == "pget") {
      in >> a >> b;
      show(*P[a]->GetFlit(b));
    } else if (op == "plen") {
      in >> a;
      printf("%u\n", P[a]->GetNumValidFlits());
    } else if (op == "preset") {
      in >> a;
      P[a]->Reset();
    } else if (op == "pfree") {                         // what an adapter does after taking a packet
      in >> a;
      for (unsigned i = 0; i < P[a]->GetNumValidFlits(); i++) P[a]->GetFlit(i)->FreeFlit();
      P[a]->Reset();
    } else if (op == "hops") {
      unsigned s, d, g;
      in >> s >> d >> g;
      printf("%d\n", CalculateXYGridHops(s, d, g));
    } else if (op == "knobs") {
      std::string f;
      in >> a >> f;
      fflush(stdout);
      pid_t p = fork();
      if (!p) {                                         // queries follow, each answered in a child of its own
        radsim_config.ResizeAll(a);
        ParseRADSimKnobs(f);
        std::string q;
        while (std::getline(std::cin, q) && q != "end") {
          fflush(stdout);
          pid_t c = fork();
          if (!c) {
            std::istringstream qi(q);
            query(qi);
            fflush(stdout);
            _exit(0);
          }
          int st = 0;
          waitpid(c, &st, 0);
          if (!WIFEXITED(st)) printf("! signal\n");
          else if (WEXITSTATUS(st)) printf("! %d\n", WEXITSTATUS(st));
        }
        printf("parsed\n");
        fflush(stdout);
        _exit(0);
      }
      int st = 0;
      waitpid(p, &st, 0);
      printf("exit %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
      break;
    }
  }
  printf("END\n");
  fflush(stdout);
  _exit(0);
}
