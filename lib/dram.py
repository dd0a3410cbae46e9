"""DRAM model scenarios: configurations, address streams, and oracles over the
log and the command trace."""
import collections, configparser, glob, json, math, os
import build as B
from core import V, Outcome, run_proc

CFGDIR = B.DS + "/configs"
_stock = {}


def read_ini(path):
    """Values of a stock configuration: {section: {key: str}}."""
    d = {}
    sec = None
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line or line[0] in ";#":
                continue
            if line[0] == "[":
                sec = line[1:line.index("]")]
                d.setdefault(sec, {})
            elif "=" in line and sec:
                k, v = line.split("=", 1)
                v = v.split(" ;")[0].split(";")[0].split("#")[0].strip()
                d[sec][k.strip()] = v
    return d


def stock(hmc=False):
    if not _stock:
        for p in sorted(glob.glob(CFGDIR + "/*.ini")):
            try:
                _stock[os.path.basename(p)[:-4]] = read_ini(p)
            except (OSError, ValueError):
                pass
    return [n for n in sorted(_stock) if ("HMC" in n) == hmc]


TIMING = dict(tCK=1.0, AL=0, CL=12, CWL=12, tCCD_L=6, tCCD_S=4, tRTRS=2, tRTP=5, tWTR_L=5, tWTR_S=5, tWR=10, tRP=10, tRRD_L=4,
              tRRD_S=4, tRAS=24, tRCD=10, tRFC=74, tCKE=6, tCKESR=12, tXS=432, tXP=8, tRFCb=20, tREFI=7800, tREFIb=1950, tFAW=50,
              tRPRE=1, tWPRE=1, tPPD=0, t32AW=330, tRCDRD=24, tRCDWR=20)
POWER = dict(VDD=1.2, IDD0=48, IDD2P=25, IDD2N=34, IDD3N=43, IDD4W=123, IDD4R=135, IDD5AB=250, IDD5PB=5, IDD6x=31)
FIELDS = ["ch", "ra", "bg", "ba", "ro", "co"]


def ilog2(x):
    return max(0, int(x).bit_length() - 1)


def num(s):
    f = float(s)
    return int(f) if f == int(f) else f


class Geo:
    """Geometry and timing of a configuration, from its text alone."""

    def __init__(self, cfg):
        s, t, y = cfg["dram_structure"], cfg["timing"], cfg["system"]
        self.protocol = s["protocol"]
        self.gddr = self.protocol.startswith("GDDR")
        self.hbm = self.protocol.startswith("HBM")
        self.bg = int(s["bankgroups"])
        self.ba = int(s["banks_per_group"])
        if str(s.get("bankgroup_enable", "true")).lower() == "false":
            self.ba *= self.bg
            self.bg = 1
        self.rows = int(s["rows"])
        cols = int(s["columns"])
        self.dw = int(s["device_width"])
        self.BL = int(s["BL"])
        self.hmc = self.protocol == "HMC"
        if self.hmc:
            self.BL = int(cfg["hmc"]["block_size"]) * 8 // self.dw
        div = {"GDDR5": 4, "GDDR5X": 8, "GDDR6": 16}.get(self.protocol, 2)
        self.burst = self.BL // div
        if self.gddr:
            cols *= self.BL
        elif self.hbm:
            cols *= 2
        self.cols = cols
        self.bus = int(y["bus_width"])
        self.devs = self.bus // self.dw
        page = cols * self.dw // 8
        self.mpr = page * (self.rows // 1024) // 1024 * (self.bg * self.ba) * self.devs
        cs = int(y["channel_size"])
        self.ranks = 1 if self.mpr > cs or not self.mpr else cs // self.mpr
        self.channels = int(y["channels"])
        self.wb = self.bus // 8 * self.BL
        self.cw = cols // self.BL
        self.words = self.channels * self.ranks * self.bg * self.ba * self.rows * self.cw
        self.mapping = y["address_mapping"]
        self.dual = self.hbm and str(s.get("hbm_dual_cmd", "true")).lower() == "true"
        for k in TIMING:
            setattr(self, k, num(t[k]) if k != "tCK" else float(t[k]))
        self.RL, self.WL = self.AL + self.CL, self.AL + self.CWL
        self.tRC = self.tRAS + self.tRP
        if self.gddr or self.hbm:
            self.rcdr, self.rcdw = self.tRCDRD, self.tRCDWR
        else:
            self.rcdr = self.rcdw = self.tRCD - self.AL
        if self.bg == 1:
            self.ccdl, self.wtrl, self.rrdl = self.tCCD_S, self.tWTR_S, self.tRRD_S
        else:
            self.ccdl, self.wtrl, self.rrdl = self.tCCD_L, self.tWTR_L, self.tRRD_L
        self.widths = dict(ch=ilog2(self.channels), ra=ilog2(self.ranks), bg=ilog2(self.bg), ba=ilog2(self.ba), ro=ilog2(self.rows),
                           co=ilog2(self.cw))
        toks = [self.mapping[i:i + 2] for i in range(0, 12, 2)]
        self.pos, p = {}, 0
        for tok in reversed(toks):
            self.pos[tok] = p
            p += self.widths[tok]
        self.policy = y.get("refresh_policy", "RANK_LEVEL_STAGGERED")

    def decode(self, addr):
        w = addr // self.wb
        return tuple((w >> self.pos[f]) & ((1 << self.widths[f]) - 1) for f in ("ch", "ra", "bg", "ba", "ro", "co"))

    def encode(self, ch, ra, bg, ba, ro, co):
        w = 0
        for f, v in zip(("ch", "ra", "bg", "ba", "ro", "co"), (ch, ra, bg, ba, ro, co)):
            w |= v << self.pos[f]
        return w * self.wb

    def pow2(self):
        return all(x & (x - 1) == 0 for x in (self.channels, self.ranks, self.bg, self.ba, self.rows, self.cw))


def gen_cfg(rng, name=None, perturb=True, keepword=None):
    """A configuration dictionary built on a stock one; every timing value explicit."""
    n = name or rng.choice(stock())
    src = _stock[n]
    cfg = {k: dict(v) for k, v in src.items() if k in ("dram_structure", "timing", "power", "system", "other", "hmc")}
    for s in ("dram_structure", "timing", "power", "system", "other"):
        cfg.setdefault(s, {})
    st, t, y = cfg["dram_structure"], cfg["timing"], cfg["system"]
    for k, dv in dict(protocol="DDR3", bankgroups=2, banks_per_group=2, rows=1 << 16, columns=1 << 10, device_width=8, BL=8).items():
        st.setdefault(k, str(dv))
    for k in ("BL", "columns", "rows", "bankgroups", "banks_per_group", "device_width"):
        st[k] = str(int(float(st[k])))
    if int(st["BL"]) == 0:
        st["BL"] = "8"
    for k, dv in TIMING.items():
        t[k] = str(t.get(k, dv))
        try:
            float(t[k])
        except ValueError:
            t[k] = str(dv)
    for k, dv in POWER.items():
        cfg["power"].setdefault(k, str(dv))
    for k, dv in dict(channel_size=1024, channels=1, bus_width=64, address_mapping="chrobabgraco", queue_structure="PER_BANK",
                      row_buf_policy="OPEN_PAGE", cmd_queue_size=16, trans_queue_size=32).items():
        y.setdefault(k, str(dv))
    if t["protocol"] if "protocol" in t else False:
        del t["protocol"]
    if st["protocol"] == "HMC":
        for k, dv in dict(num_links=4, link_width=16, link_speed=15000, block_size=64, xbar_queue_depth=16).items():
            cfg.setdefault("hmc", {}).setdefault(k, str(dv))
    cfg["name"] = n
    if not perturb:
        return cfg
    if st["protocol"] == "HMC":
        m = cfg["hmc"]
        m["num_links"] = str(rng.choice([1, 2, 4, 4]))
        m["link_width"] = str(rng.choice([8, 16, 16]))
        m["link_speed"] = str(rng.choice([10000, 12500, 15000, 25000, 30000]))
        m["block_size"] = str(rng.choice([32, 64, 128, 256]))
        m["xbar_queue_depth"] = str(rng.choice([1, 2, 4, 16, 32]))
    # structure
    if rng.random() < 0.5:
        st["rows"] = str(1024 << rng.randrange(0, 5))
    if rng.random() < 0.3:
        if not st["protocol"].startswith("LP") and st["protocol"] not in ("DDR3", "HMC"):
            st["bankgroups"] = str(rng.choice([1, 2, 4]))
        st["banks_per_group"] = str(rng.choice([1, 2, 4, 8]))
    if rng.random() < 0.2 and st["protocol"].startswith("GDDR"):
        st["bankgroup_enable"] = rng.choice(["true", "false"])
    if rng.random() < 0.3 and st["protocol"].startswith("HBM"):
        st["hbm_dual_cmd"] = rng.choice(["true", "false"])
    if rng.random() < 0.5:
        y["channels"] = str(rng.choice([1, 1, 2, 4, 8] if st["protocol"] != "HMC" else [1, 4, 8, 16]))
    cfg["timing"] = t
    y["channel_size"] = "0"
    while Geo(cfg).mpr < 1:
        st["rows"] = str(int(st["rows"]) * 2)
    g = Geo(cfg)
    ranks = 1 if (g.hbm or g.hmc) and rng.random() < 0.7 else rng.choice([1, 1, 2, 4])
    y["channel_size"] = str(max(1, g.mpr) * ranks)
    if rng.random() < 0.7:
        f = FIELDS[:]
        rng.shuffle(f)
        y["address_mapping"] = "".join(f)
    y["queue_structure"] = rng.choice(["PER_BANK", "PER_BANK", "PER_RANK"])
    y["row_buf_policy"] = rng.choice(["OPEN_PAGE", "OPEN_PAGE", "CLOSE_PAGE"])
    y["refresh_policy"] = rng.choice(["RANK_LEVEL_STAGGERED", "RANK_LEVEL_STAGGERED", "RANK_LEVEL_SIMULTANEOUS", "BANK_LEVEL_STAGGERED"])
    y["cmd_queue_size"] = str(rng.choice([1, 2, 4, 8, 16]))
    y["trans_queue_size"] = str(rng.choice([1, 2, 4, 8, 16, 32, 64]))
    y["unified_queue"] = rng.choice(["False", "False", "True"])
    if rng.random() < 0.2:
        y["enable_self_refresh"] = "True"
        y["sref_threshold"] = str(rng.choice([5, 20, 100, 500]))
    # timing
    if rng.random() < 0.5:
        for k in ("tCCD_L", "tCCD_S", "tRTRS", "tRTP", "tWTR_L", "tWTR_S", "tWR", "tRP", "tRRD_L", "tRRD_S", "tRAS", "tRFC", "tXS",
                  "tCKESR", "tFAW", "tPPD", "t32AW", "tRCDRD", "tRCDWR", "tRCD", "CL", "CWL", "tRFCb"):
            if rng.random() < 0.3:
                t[k] = str(max(1, int(num(t[k]) * rng.uniform(0.5, 2.0))))
        # datasheets always have these
        t["tCCD_L"] = str(max(num(t["tCCD_L"]), num(t["tCCD_S"])))
        t["tRRD_L"] = str(max(num(t["tRRD_L"]), num(t["tRRD_S"])))
        t["tWTR_L"] = str(max(num(t["tWTR_L"]), num(t["tWTR_S"])))
        t["tRAS"] = str(max(num(t["tRAS"]), num(t["tRCD"]) + num(t["tRTP"])))
        t["tXS"] = str(max(num(t["tXS"]), num(t["tRFC"])))
    if st["protocol"] in ("DDR3", "DDR4", "LPDDR4") and rng.random() < 0.25:
        t["AL"] = str(rng.randrange(0, max(1, num(t["tRCD"]) - 1)))
    # write latency never above read latency (all supported devices)
    t["CWL"] = str(min(num(t["CWL"]), num(t["CL"])))
    if rng.random() < 0.6:
        t["tREFI"] = str(rng.randrange(4, 12) * (num(t["tRFC"]) + num(t["tRP"]) + num(t["tRAS"])) * max(1, ranks))
    g = Geo(cfg)
    need = num(t["tRFCb"]) + num(t["tRAS"]) + num(t["tRP"]) + 20
    t["tREFIb"] = str(max(need, num(t["tREFI"]) // max(1, g.bg * g.ba)))
    cfg["other"] = {"epoch_period": str(rng.choice([500, 3000, 100000])), "output_level": str(rng.choice([0, 1, 1]))}
    return cfg


def write_ini(cfg, path):
    with open(path, "w") as f:
        for s in ("hmc", "dram_structure", "timing", "power", "system", "other"):
            if s not in cfg:
                continue
            f.write("[%s]\n" % s)
            for k, v in cfg.get(s, {}).items():
                f.write("%s = %s\n" % (k, v))
            f.write("\n")


def gen_stream(rng, g, n):
    """Transactions [gap, addr, w] over a working set with locality, conflicts and hazards."""
    out = []
    # working set of coordinates
    def coord(ch=None, row=None):
        return [rng.randrange(g.channels) if ch is None else ch, rng.randrange(g.ranks), rng.randrange(g.bg), rng.randrange(g.ba),
                rng.randrange(g.rows) if row is None else row, rng.randrange(g.cw)]
    ch = None if rng.random() < 0.4 else rng.randrange(g.channels)
    pool = [coord(ch) for _ in range(rng.choice([1, 2, 4, 16, 64]))]
    if rng.random() < 0.4:
        c0 = pool[0]
        for c in pool[1:]:
            c[:4] = c0[:4]          # all in one bank
    pw = rng.choice([0.0, 0.1, 0.5, 0.5, 0.9, 1.0])
    while len(out) < n:
        mode = rng.choice(["seq", "pool", "pool", "rand", "rowhit", "same", "ranks", "phase"])
        k = rng.choice([1, 3, 10, 40, 120])
        gapm = rng.choice([0, 0, 1, 2, 8, 40])
        if rng.random() < 0.08:
            out.append([rng.choice([200, 1000, 4000]), None, 0])
        base = list(rng.choice(pool))
        w0 = rng.random() < 0.5
        for i in range(k):
            c = list(base)
            if mode == "seq":
                lin = (g.encode(*base) // g.wb + i) % g.words
                addr = lin * g.wb
            else:
                if mode == "pool":
                    c = list(rng.choice(pool))
                elif mode == "rand":
                    c = coord(ch)
                elif mode == "rowhit":
                    c[5] = rng.randrange(g.cw)
                    if rng.random() < 0.1:
                        c[4] = rng.randrange(g.rows)
                elif mode == "ranks":
                    c[1] = rng.randrange(g.ranks)
                    c[2] = rng.randrange(g.bg)
                    if rng.random() < 0.5:
                        c[3] = rng.randrange(g.ba)
                elif mode == "phase":
                    c[5] = rng.randrange(g.cw)
                    c[3] = rng.randrange(g.ba)
                addr = g.encode(*c)
            w = w0 if mode == "phase" else rng.random() < pw
            if rng.random() < 0.02:
                addr += rng.randrange(g.wb)
            gap = 0 if gapm == 0 else rng.randrange(gapm + 1)
            out.append([gap, addr, int(w)])
    res, extra = [], 0
    for gp, a, w in out[:n]:
        if a is None:
            extra += gp
        else:
            res.append([gp + extra, a, w])
            extra = 0
    return res


def gen_case(rng, tier, **kw):
    if not kw and rng.random() < 0.08 and stock(True):
        kw["name"] = rng.choice(stock(True))
    cfg = gen_cfg(rng, **kw)
    g = Geo(cfg)
    n = rng.choice([20, 80, 200, 500] + ([1500, 3000] if tier != "quick" else [800]))
    return {"cfg": cfg, "t": gen_stream(rng, g, n), "tail": rng.choice([0, 50, 3 * g.tREFI if g.tREFI < 8000 else 500, 2000]),
            "perclk": rng.choice([1, 1, 2, 8])}


def bound(case, g):
    """Cycles after which every transaction has long completed."""
    per = g.tRC + g.tRFC + g.RL + g.WL + g.burst + g.tWR + g.tFAW + g.tXS + g.tCKESR + 50
    n = len(case["t"])
    return int(sum(x[0] for x in case["t"]) + n * per * 2 + 30 * per + case["tail"] + 40 * (g.tRFC + per))


CMD = {"read": "RD", "read_p": "RDA", "write": "WR", "write_p": "WRA", "activate": "ACT", "precharge": "PRE", "refresh_bank": "REFB",
       "refresh": "REF", "self_refresh_enter": "SRE", "self_refresh_exit": "SRX"}


class Run:
    pass


def run(check, case, wd):
    g = Geo(case["cfg"])
    write_ini(case["cfg"], wd + "/c.ini")
    os.makedirs(wd + "/out", exist_ok=True)
    with open(wd + "/s.txt", "w") as f:
        f.write("cfg %s/c.ini\nout %s/out\nmax %d\ntail %d\nperclk %d\n" % (wd, wd, bound(case, g), case["tail"], case["perclk"]))
        for gp, a, w in case["t"]:
            f.write("t %d %x %d\n" % (gp, a, w))
    p = run_proc([check.bin["dramh"], "run", wd + "/s.txt"], cwd=wd, cpu=60)
    r = Run()
    r.g, r.p = g, p
    r.acc, r.comp, r.end, r.geo = [], [], None, None
    for line in p.out.splitlines():
        if line.startswith("@A "):
            x = line.split()
            r.acc.append((int(x[1]), int(x[2])))
        elif line.startswith("@C "):
            x = line.split()
            r.comp.append((int(x[1]), int(x[2], 16), int(x[3])))
        elif line.startswith("@E "):
            x = line.split()
            r.end = (x[1], int(x[2]), int(x[3]), int(x[4]))
        elif line.startswith("@G "):
            r.geo = line.split()[1:]
    r.trace = []
    for c in range(g.channels):
        tr = []
        try:
            with open(wd + "/out/dramsim3_0ch_%dcmd.trace" % c) as f:
                for line in f:
                    x = line.split()
                    if len(x) >= 8:
                        tr.append((int(x[0]), CMD.get(x[1], x[1]), int(x[3]), int(x[4]), int(x[5]), int(x[6], 16), int(x[7], 16)))
        except OSError:
            pass
        r.trace.append(tr)
    return r


def crash(r):
    if r.end is None:
        return [V("crash:" + r.p.status(), "model ended with %s: %s" % (r.p.status(), (r.p.err[-300:] or r.p.out[-200:]).replace("\n", " | ")),
                  "crash")]
    return []


# ------------------------------------------------------------------ D01
def judge_complete(case, r):
    g, vs = r.g, []
    if r.end is None:
        return crash(r)
    t = case["t"]
    if [i for _, i in r.acc] != list(range(len(r.acc))):
        vs.append(V("accept-order", "log of accepted transactions out of order"))
    acc = collections.defaultdict(list)
    for c, i in r.acc:
        acc[(t[i][1], t[i][2])].append(c)
    comp = collections.defaultdict(list)
    for c, a, w in r.comp:
        comp[(a, w)].append(c)
    for k in comp:
        if k not in acc:
            vs.append(V("spurious", "completion of %x %s at %d, never accepted" % (k[0], "w" if k[1] else "r", comp[k][0])))
    for k, l in acc.items():
        m = comp.get(k, [])
        if len(m) > len(l):
            vs.append(V("twice", "%x %s accepted %d times, completed %d times" % (k[0], "w" if k[1] else "r", len(l), len(m))))
        if len(m) < len(l):
            vs.append(V("lost", "%x %s accepted %d times, completed %d times by cycle %d" % (k[0], "w" if k[1] else "r", len(l), len(m), r.end[1])))
        for x, y in zip(l, m):
            if y <= x:
                vs.append(V("early", "%x %s completed at %d, accepted at %d" % (k[0], "w" if k[1] else "r", y, x)))
                break
    if len(r.acc) < len(t):
        vs.append(V("never-accepted", "transaction %d %s not accepted by cycle %d" % (len(r.acc), t[len(r.acc)], r.end[1])))
    if vs:
        return vs[:6]
    # a read's data comes from a column read of its own word (or a write still buffered), after the read latency
    lat = g.RL + g.burst
    if g.hmc:
        return _complete_hmc(case, r, lat)
    cmds = collections.defaultdict(list)
    for ch, tr in enumerate(r.trace):
        for c, k, ra, bg, ba, ro, co in tr:
            if k in ("RD", "RDA"):
                cmds[(ch, ra, bg, ba, ro, co)].append(c)
    wr = collections.defaultdict(list)
    for c, i in r.acc:
        if t[i][2]:
            wr[t[i][1]].append(c)
    for (a, w), m in comp.items():
        if w:
            continue
        cl = cmds.get(g.decode(a), [])
        cls = set(cl)
        for y in m:
            if y - lat in cls:
                continue
            if any(y - 3 <= x < y and any(z <= x for z in wr.get(a, [])) for x in acc[(a, 0)]):
                continue        # answered from a buffered write
            vs.append(V("no-read", "read of %x completed at %d without a column read of %s %d cycles before; reads %s" % (a, y, g.decode(a), lat, cl[:6])))
            break
    return vs[:6]


def _complete_hmc(case, r, lat):
    """Packets cross the links and the crossbar, so times are bounds: each column read answers a read after
    the read latency, and a read is answered from one or from a buffered write."""
    g, t = r.g, case["t"]
    rd, wt, dn = collections.defaultdict(list), collections.defaultdict(list), collections.defaultdict(list)
    for ch, tr in enumerate(r.trace):
        for c, k, ra, bg, ba, ro, co in tr:
            if k in ("RD", "RDA"):
                rd[(ch, ra, bg, ba, ro, co)].append(c)
    for c, i in r.acc:
        if t[i][2]:
            wt[g.decode(t[i][1])].append(c)
    for c, a, w in r.comp:
        if not w:
            dn[g.decode(a)].append(c)
    vs = []
    for k in set(rd) | set(dn):
        ys, cs = sorted(dn[k]), sorted(rd[k])
        # distinct answers for the column reads, last first
        left = ys[:]
        for c in reversed(cs):
            if not left or left[-1] < c + lat:
                vs.append(V("read-time", "column read of %s at %d (latency %d) has no answer after it; answers at %s" % (k, c, lat, ys[-6:])))
                break
            left.pop()
        for y in ys:
            if not any(c + lat <= y for c in cs) and not any(x < y for x in wt[k]):
                vs.append(V("no-read", "read of %s answered at %d, column reads at %s, no earlier write" % (k, y, cs[:6])))
                break
        if len(vs) > 3:
            break
    return vs


# ------------------------------------------------------------------ D02
def judge_trace(case, r):
    g = r.g
    if r.end is None:
        return crash(r)
    vs = []
    endclk = r.end[1]
    for ch, tr in enumerate(r.trace):
        vs += _channel(g, ch, tr, endclk)
        if len(vs) > 8:
            break
    if not vs:
        vs += _data_order(case, r)
    return vs[:8]


def _data_order(case, r):
    """Column commands of one word follow the order in which its reads and writes were accepted:
    a write is not carried out while an older read of the word waits (writes to a word whose write
    still waits are merged into it, reads of it are answered from it), and there are never more column
    commands than accepted transactions."""
    g, t, vs = r.g, case["t"], []
    odd = set(g.decode(x[1]) for x in t if x[1] % g.wb)
    ev = []
    for c, i in r.acc:
        k = g.decode(t[i][1])
        if k not in odd:
            ev.append((c, 1, k, "W" if t[i][2] else "R", i))
    for ch, tr in enumerate(r.trace):
        for c, k, ra, bg, ba, ro, co in tr:
            if k in ("RD", "WR", "RDA", "WRA"):
                key = (ch, ra, bg, ba, ro, co)
                if key not in odd:
                    ev.append((c, 0, key, k[:2], 0))
    ev.sort(key=lambda x: (x[0], x[1]))
    pw, pr = {}, {}
    left = collections.Counter()
    for c, _, k, what, i in ev:
        left[(k, what[0])] += 1 if len(what) == 1 else -1
        if what == "W":
            pw.setdefault(k, c)
        elif what == "R":
            if k not in pw:
                pr.setdefault(k, c)
        elif what == "WR":
            if left[(k, "W")] < 0:
                vs.append(V("write-unasked", "cycle %d: write command to %s, no accepted write waits for it" % (c, k)))
            elif k in pr and not g.hmc:       # requests on different links of an HMC are not ordered
                vs.append(V("write-before-read", "cycle %d: write command to %s while the older read accepted at %d waits" % (c, k, pr[k])))
            pw.pop(k, None)
        else:
            if left[(k, "R")] < 0:
                vs.append(V("read-unasked", "cycle %d: read command to %s, no accepted read waits for it" % (c, k)))
            pr.pop(k, None)
        if len(vs) > 4:
            break
    return vs


def _channel(g, ch, tr, endclk):
    vs = []
    NEG = -10 ** 9
    R, G, N = g.ranks, g.bg, g.ba

    def bad(kind, c, txt):
        vs.append(V(kind, "channel %d cycle %d: %s" % (ch, c, txt)))

    opn = {}                                    # bank -> row
    act, rd, wr, pre, ap, refb = ({} for _ in range(6))   # bank -> last time (ap: earliest time the bank is precharged)
    ract = [collections.deque(maxlen=32) for _ in range(R)]
    bgact = {}
    bgrd, bgwr = {}, {}
    rref, sre, srx = [NEG] * R, [None] * R, [NEG] * R
    rpre = {}
    nref = [0] * R
    lastrefb = {}
    cntb = collections.Counter()
    srtime = [0] * R
    reft = [[] for _ in range(R)]
    lastc, lastk = NEG, None
    ncyc = 0
    for c, k, ra, bg, ba, ro, co in tr:
        if vs and len(vs) > 4:
            break
        rw = k in ("RD", "RDA", "WR", "WRA")
        if c == lastc:
            ncyc += 1
            if not g.dual or ncyc > 2 or (rw == lastrw):
                bad("bus", c, "two commands in one cycle: %s and %s" % (lastk, k))
        else:
            ncyc = 1
            if c < lastc:
                bad("order", c, "time runs backwards")
        lastc, lastk, lastrw = c, k, rw
        if not (0 <= ra < R):
            bad("range", c, "%s to rank %d of %d" % (k, ra, R))
            continue
        if k not in ("REF", "SRE", "SRX") and not (0 <= bg < G and 0 <= ba < N):
            bad("range", c, "%s to bank %d.%d" % (k, bg, ba))
            continue
        if sre[ra] is not None and k != "SRX":
            bad("sref", c, "%s to rank %d in self refresh since %d" % (k, ra, sre[ra]))
            continue
        b = (ra, bg, ba)

        def need(kind, frm, d, what):
            if c < frm + d:
                bad(kind, c, "%s to %s only %d cycles after %s at %d, needs %d" % (k, b, c - frm, what, frm, d))
        if k == "ACT":
            if b in opn:
                bad("act-open", c, "activate of open bank %s" % (b,))
            if not (0 <= ro < g.rows):
                bad("range", c, "row %d" % ro)
            need("tRC", act.get(b, NEG), g.tRC, "activate")
            need("tRP", pre.get(b, NEG), g.tRP, "precharge")
            need("tRPa", ap.get(b, NEG), g.tRP, "auto-precharge")
            need("tRFC", rref[ra], g.tRFC, "refresh")
            need("tRFCb", refb.get(b, NEG), g.tRFCb, "bank refresh")
            need("tXS", srx[ra], g.tXS, "self-refresh exit")
            for q in range(G):
                need("tRRD", bgact.get((ra, q), NEG), g.rrdl if q == bg else g.tRRD_S, "activate in group %d" % q)
            w = ract[ra]
            if len(w) >= 4:
                need("tFAW", w[-4], g.tFAW, "fourth last activate")
            if g.gddr and len(w) >= 32:
                need("t32AW", w[-32], g.t32AW, "32nd last activate")
            opn[b] = ro
            act[b] = c
            bgact[(ra, bg)] = c
            w.append(c)
        elif rw:
            isr = k in ("RD", "RDA")
            if b not in opn:
                bad("rw-closed", c, "%s to closed bank %s" % (k, b))
            elif opn[b] != ro:
                bad("rw-row", c, "%s to row %d of bank %s with row %d open" % (k, ro, b, opn[b]))
            if not (0 <= co < g.cw):
                bad("range", c, "column %d" % co)
            need("tRCD", act.get(b, NEG), g.rcdr if isr else g.rcdw, "activate")
            start = c + (g.RL if isr else g.WL)
            for q in range(R):
                for p in range(G):
                    for isr2, last in ((True, bgrd.get((q, p), NEG)), (False, bgwr.get((q, p), NEG))):
                        if last == NEG:
                            continue
                        if isr == isr2 and q == ra:
                            need("tCCD", last, max(g.burst, g.ccdl if p == bg else g.tCCD_S), "%s in group %d" % ("read" if isr2 else "write", p))
                        elif isr and not isr2 and q == ra:
                            need("tWTR", last, g.WL + g.burst + (g.wtrl if p == bg else g.tWTR_S), "write in group %d" % p)
                        # data bus
                        fin = last + (g.RL if isr2 else g.WL) + g.burst
                        gap = 0
                        if isr2 != isr or (q != ra and isr2):
                            gap = g.tRTRS
                        if last <= c and start < fin + gap and not (isr == isr2 and q == ra):
                            bad("databus", c, "%s of rank %d starts data at %d, %s of rank %d at %d ends data at %d, gap %d" %
                                (k, ra, start, "read" if isr2 else "write", q, last, fin, gap))
            if isr:
                bgrd[(ra, bg)] = c
                rd[b] = c
            else:
                bgwr[(ra, bg)] = c
                wr[b] = c
            if k in ("RDA", "WRA"):
                opn.pop(b, None)
                x = c + g.AL + g.tRTP if isr else c + g.WL + g.burst + g.tWR
                ap[b] = max(x, act.get(b, NEG) + g.tRAS)
        elif k == "PRE":
            if b not in opn:
                bad("pre-closed", c, "precharge of closed bank %s" % (b,))
            need("tRAS", act.get(b, NEG), g.tRAS, "activate")
            need("tRTP", rd.get(b, NEG), g.AL + g.tRTP, "read")
            need("tWR", wr.get(b, NEG), g.WL + g.burst + g.tWR, "write")
            if g.gddr or g.protocol == "LPDDR4":
                for (q, p, z), x in rpre.items():
                    if q == ra and (p, z) != (bg, ba):
                        need("tPPD", x, g.tPPD, "precharge of another bank")
                rpre[b] = c
            opn.pop(b, None)
            pre[b] = c
        elif k in ("REF", "SRE", "REFB"):
            banks = [b] if k == "REFB" else [(ra, p, z) for p in range(G) for z in range(N)]
            for x in banks:
                if x in opn:
                    bad("ref-open", c, "%s with bank %s open" % (k, x))
                if c < pre.get(x, NEG) + g.tRP:
                    bad("ref-tRP", c, "%s %d cycles after precharge of %s, needs %d" % (k, c - pre[x], x, g.tRP))
                if c < ap.get(x, NEG) + g.tRP:
                    bad("ref-tRPa", c, "%s before the auto-precharge of %s is over (%d + %d)" % (k, x, ap[x], g.tRP))
                if c < refb.get(x, NEG) + g.tRFCb:
                    bad("ref-tRFCb", c, "%s %d cycles after bank refresh of %s" % (k, c - refb[x], x))
            need("ref-tRFC", rref[ra], g.tRFC, "refresh")
            need("tXS", srx[ra], g.tXS, "self-refresh exit")
            if k == "REF":
                rref[ra] = c
                nref[ra] += 1
                reft[ra].append(c)
            elif k == "REFB":
                refb[b] = c
                cntb[b] += 1
            else:
                sre[ra] = c
        elif k == "SRX":
            if sre[ra] is None:
                bad("srx", c, "self-refresh exit of rank %d that is not in self refresh" % ra)
            else:
                need("tCKESR", sre[ra], g.tCKESR, "self-refresh entry")
                srtime[ra] += c - sre[ra] + g.tREFI
            sre[ra] = None
            srx[ra] = c
        else:
            bad("unknown", c, "command %s" % k)
    if vs:
        return vs
    # refresh rate: never more than eight refreshes behind
    for ra in range(R):
        awake = endclk - srtime[ra] - (endclk - sre[ra] + g.tREFI if sre[ra] is not None else 0)
        if g.policy == "BANK_LEVEL_STAGGERED":
            per = g.tREFIb * G * N * R
            for p in range(G):
                for z in range(N):
                    n = cntb[(ra, p, z)]
                    if n < awake // per - 8:
                        vs.append(V("refresh-rate", "channel %d: bank %s refreshed %d times in %d cycles, expected %d" % (ch, (ra, p, z), n, awake, awake // per)))
                        break
        else:
            want = awake // (max(1, g.tREFI // R) * R) if g.policy == "RANK_LEVEL_STAGGERED" else awake // g.tREFI
            if nref[ra] < want - 8:
                vs.append(V("refresh-rate", "channel %d: rank %d refreshed %d times in %d cycles, expected %d" % (ch, ra, nref[ra], awake, want)))
            # and no gap above nine intervals
            if not srtime[ra] and sre[ra] is None:
                l = [0] + reft[ra] + [endclk]
                m = max(b - a for a, b in zip(l, l[1:]))
                if m > 9 * g.tREFI + 2000:
                    vs.append(V("refresh-gap", "channel %d: rank %d not refreshed for %d cycles" % (ch, ra, m)))
    return vs


# ------------------------------------------------------------------ statistics
def judge_stats(case, r, wd):
    g = r.g
    if r.end is None:
        return crash(r)
    vs = []
    try:
        with open(wd + "/out/dramsim3_0.json") as f:
            d = json.load(f)
    except (OSError, ValueError) as e:
        return [V("stats-file", "statistics file unreadable: %s" % e)]
    t = case["t"]
    chof = lambda a: g.decode(a)[0]
    p = {k: float(case["cfg"]["power"][k]) for k in POWER}
    dev = g.devs
    inc = dict(act=p["VDD"] * (p["IDD0"] * g.tRC - (p["IDD3N"] * g.tRAS + p["IDD2N"] * g.tRP)) * dev,
               rd=p["VDD"] * (p["IDD4R"] - p["IDD3N"]) * g.burst * dev, wr=p["VDD"] * (p["IDD4W"] - p["IDD3N"]) * g.burst * dev,
               ref=p["VDD"] * (p["IDD5AB"] - p["IDD3N"]) * g.tRFC * dev, refb=p["VDD"] * (p["IDD5PB"] - p["IDD3N"]) * g.tRFCb * dev,
               acts=p["VDD"] * p["IDD3N"] * dev, pres=p["VDD"] * p["IDD2N"] * dev, sref=p["VDD"] * p["IDD6x"] * dev)
    cyc = r.end[1]
    acc = collections.defaultdict(list)
    for c, i in r.acc:
        acc[chof(t[i][1])].append((c, i))
    for ch in range(g.channels):
        s = d.get(str(ch))
        if s is None:
            vs.append(V("stats-channel", "no statistics for channel %d" % ch))
            continue
        tr = r.trace[ch]
        cnt = collections.Counter(x[1] for x in tr)
        want = {"num_cycles": cyc, "num_read_cmds": cnt["RD"] + cnt["RDA"], "num_write_cmds": cnt["WR"] + cnt["WRA"],
                "num_act_cmds": cnt["ACT"], "num_pre_cmds": cnt["PRE"], "num_ref_cmds": cnt["REF"], "num_refb_cmds": cnt["REFB"],
                "num_srefe_cmds": cnt["SRE"], "num_srefx_cmds": cnt["SRX"],
                "num_reads_done": sum(1 for c, a, w in r.comp if not w and chof(a) == ch),
                "num_writes_done": sum(1 for c, a, w in r.comp if w and chof(a) == ch)}
        cc = collections.Counter(x[0] for x in tr)
        want["hbm_dual_cmds"] = sum(1 for v in cc.values() if v > 1)
        # row hits, and rank activity
        first, rh, wh = {}, 0, 0
        opn = [set() for _ in range(g.ranks)]
        active, since = [0] * g.ranks, [None] * g.ranks
        sref, srs = [0] * g.ranks, [None] * g.ranks
        byc = collections.OrderedDict()
        for x in tr:
            byc.setdefault(x[0], []).append(x)
        for c, l in byc.items():
            for _, k, ra, bg, ba, ro, co in l:
                b = (ra, bg, ba)
                if k == "ACT":
                    first[b] = True
                    opn[ra].add(b)
                elif k in ("RD", "WR", "RDA", "WRA"):
                    if not first.get(b, True):
                        if k in ("RD", "RDA"):
                            rh += 1
                        else:
                            wh += 1
                    first[b] = False
                    if k[-1] == "A":
                        opn[ra].discard(b)
                elif k == "PRE":
                    opn[ra].discard(b)
                elif k == "SRE":
                    srs[ra] = c
                elif k == "SRX":
                    if srs[ra] is not None:
                        sref[ra] += c - srs[ra]
                    srs[ra] = None
            for ra in range(g.ranks):
                if opn[ra] and since[ra] is None:
                    since[ra] = c
                elif not opn[ra] and since[ra] is not None:
                    active[ra] += c - since[ra]
                    since[ra] = None
        for ra in range(g.ranks):
            if since[ra] is not None:
                active[ra] += cyc - since[ra]
            if srs[ra] is not None:
                sref[ra] += cyc - srs[ra]
        want["num_read_row_hits"], want["num_write_row_hits"] = rh, wh
        for k, w in want.items():
            if s.get(k) != w:
                vs.append(V("stat:" + k, "channel %d: %s is %s, the command history has %s" % (ch, k, s.get(k), w)))
        hassref = cnt["SRE"] > 0
        for ra in range(g.ranks):
            a, i, f = (s.get(n, {}).get(str(ra)) for n in ("rank_active_cycles", "all_bank_idle_cycles", "sref_cycles"))
            if a != active[ra]:
                vs.append(V("stat:rank_active_cycles", "channel %d rank %d: %s active cycles, history has %d" % (ch, ra, a, active[ra])))
            if not hassref and (a or 0) + (i or 0) + (f or 0) != cyc:
                vs.append(V("stat:rank_cycles", "channel %d rank %d: %s+%s+%s cycles of %d" % (ch, ra, a, i, f, cyc)))
            if hassref and abs((f or 0) - sref[ra]) > cnt["SRE"] + cnt["SRX"]:
                vs.append(V("stat:sref_cycles", "channel %d rank %d: %s self-refresh cycles, history has %d" % (ch, ra, f, sref[ra])))
        if not g.hmc:       # an HMC's requests reach the vaults later than they are accepted
            rl = collections.Counter()
            # latency of each read: accepted after the tick of cycle c, so it was added in cycle c + 1
            comp = collections.defaultdict(list)
            for c, a, w in r.comp:
                if not w:
                    comp[a].append(c)
            pos = collections.Counter()
            for c, i in acc[ch]:
                if not t[i][2]:
                    a = t[i][1]
                    k = pos[a]
                    pos[a] += 1
                    if k < len(comp[a]):
                        rl[comp[a][k] - (c + 1)] += 1
            tot = sum(k * v for k, v in rl.items())
            n = sum(rl.values())
            js = {int(k): v for k, v in (s.get("read_latency") or {}).items()}
            if sum(js.values()) != n or sum(k * v for k, v in js.items()) != tot:
                vs.append(V("stat:read_latency", "channel %d: read latencies sum to %d over %d reads, observed %d over %d" %
                            (ch, sum(k * v for k, v in js.items()), sum(js.values()), tot, n)))
            if all(v == 1 for v in pos.values()) and js != dict(rl) and not vs:
                vs.append(V("stat:read_latency", "channel %d: read latencies %s, observed %s" % (ch, sorted(js.items())[:6], sorted(rl.items())[:6])))
            # the bins against the printed distribution (reads of one address may answer in either order)
            for nm, hist in (("read_latency", js), ("interarrival_latency", iac(acc[ch]))):
                width, end = (20, 200) if nm == "read_latency" else (10, 100)
                bins = collections.Counter()
                for k, v in hist.items():
                    bins["%s[%d-]" % (nm, end) if k >= end else "%s[%d-%d]" % (nm, k // width * width, k // width * width + width - 1)] += v
                for i in range(10):
                    bins["%s[%d-%d]" % (nm, i * width, i * width + width - 1)] += 0
                for b, v in bins.items():
                    if b in s and s[b] != v:
                        vs.append(V("stat:bin", "channel %d: %s is %s, observed %d" % (ch, b, s[b], v)))
                        break
            wl = write_latencies(case, r, ch)
            if wl is not None:
                jw = {int(k): v for k, v in (s.get("write_latency") or {}).items()}
                if jw != dict(wl):
                    vs.append(V("stat:write_latency", "channel %d: write latencies %s, command history has %s" %
                                (ch, sorted(jw.items())[:6], sorted(wl.items())[:6])))
            avg = tot / n if n else 0.0

        def close(name, got, exp):
            if got is None or abs(got - exp) > 1e-6 * max(1.0, abs(exp)):
                vs.append(V("stat:" + name, "channel %d: %s is %s, expected %s" % (ch, name, got, exp)))
        if not g.hmc:
            close("average_read_latency", s.get("average_read_latency"), avg)
            last, ia = 0, []
            for c, i in acc[ch]:
                ia.append(c + 1 - last)
                last = c + 1
            close("average_interarrival", s.get("average_interarrival"), sum(ia) / len(ia) if ia else 0.0)
        reqs = want["num_reads_done"] + want["num_writes_done"]
        close("average_bandwidth", s.get("average_bandwidth"), reqs * g.wb / (cyc * g.tCK))
        e = {"act_energy": cnt["ACT"] * inc["act"], "read_energy": want["num_read_cmds"] * inc["rd"],
             "write_energy": want["num_write_cmds"] * inc["wr"], "ref_energy": cnt["REF"] * inc["ref"], "refb_energy": cnt["REFB"] * inc["refb"]}
        for k, x in e.items():
            close(k, s.get(k), x)
        if not hassref:
            bgd = sum(active[ra] * inc["acts"] + (cyc - active[ra]) * inc["pres"] for ra in range(g.ranks))
            close("total_energy", s.get("total_energy"), sum(e.values()) + bgd)
            close("average_power", s.get("average_power"), (sum(e.values()) + bgd) / cyc)
        if len(vs) > 6:
            break
    # the epochs add up to at most the totals
    if case["cfg"]["other"].get("output_level", "1") != "0" and cyc >= int(case["cfg"]["other"]["epoch_period"]) and not vs:
        try:
            with open(wd + "/out/dramsim3_0epoch.json") as f:
                ep = json.load(f)
            per = int(case["cfg"]["other"]["epoch_period"])
            if len(ep) != (cyc // per) * g.channels:
                vs.append(V("stat:epochs", "%d epoch records for %d cycles of period %d and %d channels" % (len(ep), cyc, per, g.channels)))
            for ch in range(g.channels):
                mine = [x for x in ep if x.get("channel") == ch]
                lim = (cyc // per) * per
                for nm, ks in (("num_act_cmds", ("ACT",)), ("num_read_cmds", ("RD", "RDA")), ("num_write_cmds", ("WR", "WRA")), ("num_ref_cmds", ("REF",))):
                    w = sum(1 for x in r.trace[ch] if x[1] in ks and x[0] < lim)
                    if sum(x.get(nm, 0) for x in mine) != w:
                        vs.append(V("stat:epoch-" + nm, "channel %d: epochs have %d %s, history %d" % (ch, sum(x.get(nm, 0) for x in mine), nm, w)))
        except (OSError, ValueError) as e:
            vs.append(V("stat:epochfile", "epoch file unreadable: %s" % e))
    return vs[:6]


def iac(acc):
    last, h = 0, collections.Counter()
    for c, i in acc:
        h[c + 1 - last] += 1
        last = c + 1
    return h


def write_latencies(case, r, ch):
    """Latency of each write command from the acceptance of the oldest write merged into it."""
    g, t = r.g, case["t"]
    if any(x[1] % g.wb for x in t):
        return None
    ev = [(c, 1, g.decode(t[i][1]), 0) for c, i in r.acc if t[i][2]]
    for c, k, ra, bg, ba, ro, co in r.trace[ch]:
        if k in ("WR", "WRA"):
            ev.append((c, 0, (ch, ra, bg, ba, ro, co), 1))
    ev.sort(key=lambda x: (x[0], x[1]))
    pw, out = {}, collections.Counter()
    for c, _, k, cmd in ev:
        if cmd:
            if k in pw:
                out[c - (pw.pop(k) + 1) + g.WL + g.burst] += 1
        else:
            pw.setdefault(k, c)
    return out


def tags(case, r):
    y = case["cfg"]["system"]
    o = [case["cfg"]["dram_structure"]["protocol"], y["queue_structure"], y["row_buf_policy"], y.get("refresh_policy", "-"), "ranks%d" % r.g.ranks,
         "ch%d" % r.g.channels, "unified" if y.get("unified_queue") == "True" else "split"]
    if y.get("enable_self_refresh") == "True":
        o.append("selfref")
    for tr in r.trace:
        for k in set(x[1] for x in tr):
            o.append("cmd:" + k)
    return sorted(set(o))


def shrink(case):
    from core import shrink_list, setp
    for c in shrink_list(case, ["t"]):
        yield c
    for p, vals in ((["tail"], [0]), (["perclk"], [1])):
        for v in vals:
            if case[p[0]] != v:
                yield setp(case, p, v)
    for k, v in (("enable_self_refresh", None), ("refresh_policy", "RANK_LEVEL_STAGGERED"), ("unified_queue", "False"),
                 ("row_buf_policy", "OPEN_PAGE"), ("queue_structure", "PER_BANK"), ("channels", "1"), ("cmd_queue_size", "8"), ("trans_queue_size", "32")):
        y = case["cfg"]["system"]
        if k in y and y[k] != v:
            c = json.loads(json.dumps(case))
            if v is None:
                del c["cfg"]["system"][k]
            else:
                c["cfg"]["system"][k] = v
            yield c
    if any(x[0] for x in case["t"]):
        c = json.loads(json.dumps(case))
        for x in c["t"]:
            x[0] = x[0] // 2
        yield c
