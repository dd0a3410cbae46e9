"""Scenarios for the scripted-endpoint simulator harness (simh): generation,
file writing, log parsing."""
import collections, json, math, os, re
import core
from core import V, Outcome

# interface widths of each harness build (see build.VARIANTS; the header itself
# is produced by config.py)
W = {
    "a": dict(payload=82, axis=512, user=75, axi=512, axiuser=64, destw=4, maxvcs=10),
    "b": dict(payload=47, axis=200, user=21, axi=256, axiuser=64, destw=5, maxvcs=5),
    "c": dict(payload=600, axis=512, user=75, axi=512, axiuser=64, destw=2, maxvcs=5),
    "d": dict(payload=82, axis=512, user=75, axi=512, axiuser=64, destw=7, maxvcs=5),
    "m": dict(payload=82, axis=512, user=75, axi=512, axiuser=64, destw=4, maxvcs=5),
}
CLS = ("read_request", "write_request", "write_data", "read_reply", "write_reply")


def flits(v, dataw):
    w = W[v]
    return -(-(dataw + w["user"] + 1) // w["payload"])


def noc_cfg_text(n):
    o = ["topology = %s;" % n["topology"]]
    for k, v in n.get("topo", {"k": 4, "n": 2}).items():
        o.append("%s = %s;" % (k, v))
    o.append("routing_function = %s;" % n["rf"])
    o += ["num_vcs = %d;" % n["vcs"], "vc_buf_size = %d;" % n["vc_buf"], "output_buffer_size = %d;" % n["out_buf"]]
    for c, (b, e) in zip(CLS, n["cls"]):
        o += ["%s_begin_vc = %d;" % (c, b), "%s_end_vc = %d;" % (c, e)]
    o += ["router = iq;", "vc_allocator = %s;" % n["vca"], "sw_allocator = %s;" % n["swa"], "alloc_iters = %d;" % n["iters"],
          "wait_for_tail_credit = %d;" % n["wtc"], "credit_delay = %d;" % n["cd"], "routing_delay = %d;" % n["rd"],
          "vc_alloc_delay = %d;" % n["va"], "sw_alloc_delay = %d;" % n["sa"]]
    for k, v in n.get("extra", {}).items():
        o.append("%s = %s;" % (k, v))
    return "\n".join(o) + "\n"


def fmt(x):
    return repr(float(x)) if isinstance(x, float) else str(x)


def knobs_text(case, wd):
    o = []
    rads = case["rads"]
    for r, rd in enumerate(rads):
        ns = rd["nocs"]
        p = lambda k, vs: o.append("%s %d %s " % (k, r, " ".join(fmt(x) for x in vs)))
        o.append("design_name %d vdesign" % r)
        o.append("noc_num_nocs %d %d" % (r, len(ns)))
        p("noc_clk_period", [n["clk"] for n in ns])
        p("noc_vcs", [n["vcs"] for n in ns])
        p("noc_payload_width", [W[case["v"]]["payload"]] * len(ns))
        p("noc_num_nodes", [n["nodes"] for n in ns])
        p("design_noc_placement", ["x.place"])
        p("noc_adapters_clk_period", rd["aclk"])
        p("noc_adapters_fifo_size", [n["fifo"] for n in ns])
        p("noc_adapters_obuff_size", [n["obuf"] for n in ns])
        p("noc_adapters_in_arbiter", ["fixed_rr"] * len(ns))
        p("noc_adapters_out_arbiter", ["priority_rr"] * len(ns))
        p("noc_adapters_vc_mapping", ["direct"] * len(ns))
        p("design_clk_periods", rd["mclk"])
        dr = rd.get("dram", [])
        o.append("dram_num_controllers %d %d" % (r, len(dr)))
        if dr:
            p("dram_clk_periods", [d["clk"] for d in dr])
            p("dram_queue_sizes", [d["q"] for d in dr])
            p("dram_config_files", [d["cfg"] for d in dr])
        o.append("radsim_user_design_root_dir %d %s" % (r, wd + ("/r%d" % r if len(rads) > 1 else "")))
    o.append("radsim_root_dir %s" % wd)
    o.append("sim_driver_period %s" % fmt(case["driver"]))
    o.append("telemetry_log_verbosity %d" % case.get("verb", 0))
    o.append("telemetry_traces %s " % " ".join(case.get("traces", ["t0"])))
    o.append("num_rads %d" % len(rads))
    o.append("cluster_configs x ")
    o.append("cluster_topology all-to-all")
    ir = case.get("ir", {})
    o.append("inter_rad_latency_cycles %d" % ir.get("lat", 20))
    o.append("inter_rad_bw_accept_cycles %d" % ir.get("acc", 1))
    o.append("inter_rad_bw_total_cycles %d" % ir.get("tot", 1))
    o.append("inter_rad_fifo_num_slots %d" % ir.get("slots", 1000))
    return "\n".join(o) + "\n"


def ids(case):
    """Global port ids in the harness's numbering, and interface ids: dense per
    node and direction in the order the placement file lists them."""
    pid, port = {}, {}
    k = 0
    for r, rd in enumerate(case["rads"]):
        cnt = collections.Counter()
        for m in rd["mods"]:
            for p in m.get("ports", []):
                pid[(r, m["name"] + "." + p["n"])] = k
                k += 1
        for name, noc, node, typ in place_lines(rd):
            for full, p, m in expand(rd, name, typ):
                slave = p["k"] in ("as", "ms")
                key = (noc, node, slave)
                port[(r, full)] = dict(noc=noc, node=node, iface=cnt[key], k=p["k"], w=p["w"], t=p.get("t", 0), m=m, p=p)
                cnt[key] += 1
    return pid, port


def expand(rd, name, typ="axis"):
    if "." in name:
        mn = name.split(".")[0]
        for m in rd["mods"]:
            if m["name"] == mn:
                for p in m.get("ports", []):
                    if m["name"] + "." + p["n"] == name:
                        yield name, p, m
        return
    for m in rd["mods"]:
        if m["name"] == name:
            # whole-module line: slave ports first, then master ports
            for kind in ("as", "am") if typ == "axis" else ("ms", "mm"):
                for p in m.get("ports", []):
                    if p["k"] == kind:
                        yield m["name"] + "." + p["n"], p, m


def place_lines(rd):
    """Placement lines of a RAD (explicit, or per port from the modules)."""
    if "place" in rd:
        return [tuple(l) for l in rd["place"]]
    o = []
    for m in rd["mods"]:
        if m.get("nolines"):
            continue
        if m.get("whole"):
            o.append((m["name"], m["noc"], m["node"], "axis"))
        else:
            for p in m.get("ports", []):
                o.append((m["name"] + "." + p["n"], p.get("noc", m.get("noc", 0)), p.get("node", m.get("node")),
                          "axis" if p["k"] in ("as", "am") else "aximm"))
    if "portal" in rd:
        o.append(("portal_inst", 0, rd["portal"], "axis"))
    return o


def clk_lines(rd):
    o = [(m["name"], m["ac"], m["mc"]) for m in rd["mods"]]
    if "portal" in rd:
        o.append(("portal_inst", rd.get("portal_ac", 0), rd["portal_mc"]))
    if "clkorder" in rd:
        o = [o[i] for i in rd["clkorder"] if i < len(o)] + [x for i, x in enumerate(o) if i not in rd["clkorder"]]
    return o


def write(case, wd):
    os.makedirs(wd + "/sim/noc", exist_ok=True)
    os.makedirs(wd + "/logs", exist_ok=True)
    os.makedirs(wd + "/sim/dram/DRAMsim3", exist_ok=True)
    c = wd + "/sim/dram/DRAMsim3/configs"
    if not os.path.exists(c):
        os.symlink(core.B.DS + "/configs", c)
    with open(wd + "/sim/radsim_knobs", "w") as f:
        f.write(knobs_text(case, wd))
    L = ["rads %d" % len(case["rads"])]
    for k in ("maxns", "drainns", "stallns", "rstns", "want", "flows"):
        if k in case:
            L.append("%s %s" % (k, case[k]))
    if case.get("stats"):
        L.append("stats")
    if case.get("ftrace"):
        L.append("ftrace")
    if case.get("irad"):
        L.append("irad")
    if case.get("dstats"):
        L.append("dstats")
    if "memclk" in case:
        L.append("memclk " + " ".join(str(x) for x in case["memclk"]))
    for r, rd in enumerate(case["rads"]):
        dd = wd + ("/r%d" % r if len(case["rads"]) > 1 else "")
        os.makedirs(dd, exist_ok=True)
        for i, n in enumerate(rd["nocs"]):
            with open(wd + "/sim/noc/noc%d_rad%d_config" % (i, r), "w") as f:
                f.write(noc_cfg_text(n))
        with open(dd + "/x.place", "w") as f:
            for l in place_lines(rd):
                f.write("%s %d %d %s\n" % tuple(l))
        with open(dd + "/x.clks", "w") as f:
            for l in clk_lines(rd):
                f.write("%s %d %d\n" % l)
        L.append("rad %d" % r)
        if "direct" in rd:
            L.append("direct %s" % rd["direct"])
        for m in rd["mods"]:
            if m.get("type", "ep") == "mem":
                L.append("mod %s mem %d %s" % (m["name"], m["dram"], m.get("init", "")))
                continue
            L.append("mod %s ep" % m["name"])
            for p in m["ports"]:
                L.append("port %s %s %d %d %s" % (p["n"], p["k"], p["w"], p.get("t", 0), p.get("f", "")))
                full = m["name"] + "." + p["n"]
                if p.get("ready"):
                    L.append("ready %s %s" % (full, " ".join(map(str, p["ready"]))))
                for ch, runs in p.get("mready", {}).items():
                    L.append("mready %s %s %s" % (full, ch, " ".join(map(str, runs))))
        for l in rd.get("links", []):
            L.append("link %s %s %d" % tuple(l))
        for l in rd.get("lines", []):
            L.append(l)
        for l in rd.get("queries", []):
            L.append("query %s" % l)
    with open(wd + "/scenario.txt", "w") as f:
        f.write("\n".join(L) + "\n")


class Log:
    def __init__(self):
        self.acc = collections.defaultdict(list)      # port id -> [(ps, idx)]
        self.rec = collections.defaultdict(list)      # port id -> [(ps, tid, tdest, user, last, data)]
        self.hold = []
        self.macc = collections.defaultdict(list)     # (id, ch) -> [(ps, idx)]
        self.mrec = collections.defaultdict(list)     # (id, ch) -> [(ps, fields...)]
        self.clk = collections.defaultdict(list)
        self.ports = {}
        self.irad = collections.defaultdict(list)
        self.x = collections.defaultdict(list)
        self.y = collections.defaultdict(list)
        self.maps, self.mems = [], {}
        self.end = None
        self.raw = None


def parse_line(g, line, irad):
    if not line:
        return
    t = line.split(" ")
    op = t[0]
    if op == "A":
        g.acc[int(t[1])].append((int(t[2]), int(t[3])))
    elif op == "R":
        if irad:
            g.rec[int(t[1])].append((int(t[2]), int(t[3]), t[4], int(t[5]), t[6]))
        else:
            g.rec[int(t[1])].append((int(t[2]), int(t[3]), int(t[4]), t[5], int(t[6]), t[7]))
    elif op == "H":
        g.hold.append(line)
    elif op == "M":
        g.macc[(int(t[1]), t[3])].append((int(t[2]), int(t[4])))
    elif op == "N":
        g.mrec[(int(t[1]), t[3])].append((int(t[2]),) + tuple(t[4:]))
    elif op == "K":
        g.clk[t[1]].append(int(t[2]))
    elif op == "P":
        g.ports[(int(t[1]), t[2])] = dict(noc=int(t[3]), node=int(t[4]), iface=int(t[5]), dest=int(t[6]), ifid=int(t[7]), base=int(t[8], 16))
    elif op == "I":
        g.irad[int(t[1])].append((int(t[2]), int(t[3]), int(t[4])))
    elif op == "X":
        g.x[int(t[1])].append((int(t[2]), int(t[3]), t[4], int(t[5]), t[6]))
    elif op == "Y":
        g.y[int(t[1])].append((int(t[2]), int(t[3]), t[4], int(t[5]), t[6]))
    elif op == "T":
        g.maps.append((int(t[1]), int(t[2], 16), int(t[3], 16), int(t[4])))
    elif op == "V":
        g.mems[(int(t[1]), t[2])] = (int(t[3]), int(t[4]))
    elif op == "E":
        g.end = (t[1], int(t[2]), int(t[3]), int(t[4]))


def parse_log(path, irad=False):
    g = Log()
    try:
        with open(path) as f:
            txt = f.read()
    except OSError:
        txt = ""
    g.raw = txt
    lines = txt.split("\n")
    for k, line in enumerate(lines):
        try:
            parse_line(g, line, irad)
        except (IndexError, ValueError):
            if k < len(lines) - 1:      # only the last line of an aborted run may be cut short
                raise
    return g


def simulate(check, case, wd, cpu=None, env=None):
    r = core.run_proc([check.bin["simh_" + case["v"]], wd], cwd=wd, cpu=cpu or check.cpu_limit, env=env)
    g = parse_log(wd + "/out.log", case.get("irad"))
    return r, g


def crash(r, g):
    """Violation for a run that did not reach its end."""
    if r.timeout:
        return [V("cpu-limit", "simulation used up its processor time: %s" % r.err[-300:])]
    if r.rc != 0 or not g.end:
        e = (r.err + r.out)[-400:]
        return [V("crash", "simulation ended with %s: %s" % (r.status(), e), "crash")]
    return []


# ------------------------------------------------------------ generation
def rnd_runs(rng, style=None):
    """Alternating ready / not-ready run lengths."""
    style = style or rng.choice(["always", "always", "slow", "bursty", "rare", "alt"])
    if style == "always":
        return []
    if style == "alt":
        return [1, 1]
    if style == "slow":
        return [1, rng.randint(2, 9)]
    if style == "rare":
        return [1, rng.randint(20, 60)]
    return [x for _ in range(rng.randint(1, 4)) for x in (rng.randint(1, 12), rng.randint(1, 20))]


def rnd_period(rng):
    c = rng.random()
    if c < 0.45:
        return rng.choice([1.0, 1.25, 1.5, 2.0, 2.5, 3.32, 4.0, 5.0])
    if c < 0.8:
        return rng.randint(4, 80) / 8.0
    return rng.randint(500, 9000) / 1000.0


ALLOCS = ["islip", "islip", "islip", "separable_input_first", "separable_output_first", "wavefront", "pim", "loa"]


def rnd_noc(rng, v, dims=None, topo=None):
    w = W[v]
    maxk = {4: 4, 5: 5, 2: 2, 7: 10}[w["destw"]]
    k = dims or rng.randint(2, maxk)
    t = topo or (rng.choice(["mesh"] * 4 + ["torus"]) if w["maxvcs"] >= 10 else "mesh")
    per = 1 if t == "mesh" else 2
    if t == "mesh" and w["maxvcs"] >= 10 and rng.random() < 0.3:
        per = 2
    ncls = 5
    cls = []
    if rng.random() < 0.8:
        vcs = per * ncls
        cls = [[i * per, i * per + per - 1] for i in range(ncls)]
        rng.random() < 0.3 and rng.shuffle(cls)
    else:
        # fewer classes share channels: every class gets one of the groups
        g = rng.randint(1, 4)
        vcs = per * g
        a = [rng.randrange(g) for _ in range(ncls)]
        cls = [[x * per, x * per + per - 1] for x in a]
    n = dict(topology=t, topo={"k": k, "n": 2}, nodes=k * k, rf="dim_order", vcs=vcs, cls=cls, vc_buf=rng.choice([2, 3, 4, 8, 8, 16]),
             out_buf=rng.choice([2, 4, 8, 8, -1]), vca=rng.choice(ALLOCS), swa=rng.choice(ALLOCS), iters=rng.choice([1, 1, 2]),
             wtc=rng.choice([0, 0, 0, 1]), cd=rng.choice([1, 1, 0, 2, 4]), rd=rng.choice([1, 1, 1, 0, 2, 3]), va=rng.choice([1, 1, 1, 2, 3]),
             sa=rng.choice([1, 1, 1, 2, 4]), clk=1.0, fifo=16, obuf=2)
    return n


def hexdata(rng, bits):
    c = rng.random()
    if c < 0.08:
        x = 0
    elif c < 0.16:
        x = (1 << bits) - 1
    elif c < 0.26:
        x = 1 << rng.randrange(bits)
    elif c < 0.36:
        x = rng.randrange(256)
    else:
        x = rng.getrandbits(bits)
    return "%x" % (x & ((1 << bits) - 1))


def userval(rng, v, num):
    """User field: the low 11 bits number the beat, so that every beat of a case
    is distinguishable; the rest is a random pattern."""
    return "%x" % ((int(hexdata(rng, W[v]["user"]), 16) >> 11 << 11) | num)


def rnd_widths(rng, v):
    m = W[v]["axis"]
    return rng.choice([m, m, rng.randint(1, m), rng.choice([8, 32, 64, 128, 256, 80, 82, 83]) % (m + 1) or 8])


def gen_axis(rng, v=None, maxmods=8, maxmsgs=60, period=None, topo=None, oneclk=False, nsends=None, nnocs=None):
    """A design of stream endpoints with scripted traffic."""
    v = v or rng.choice(["a", "a", "b", "c"])
    k = None
    # every network of a device has the same shape (the simulator's topology
    # settings are global)
    n0 = rnd_noc(rng, v, topo=topo)
    nn = nnocs or rng.choice([1, 1, 1, 2])
    nocs = [n0]
    for _ in range(nn - 1):
        n1 = rnd_noc(rng, v, dims=n0["topo"]["k"], topo=n0["topology"])
        for key in ("vcs", "cls"):
            n1[key] = n0[key]
        nocs.append(n1)
    period = period or (lambda: rnd_period(rng))
    for n in nocs:
        n["clk"] = period()
    nodes = n0["nodes"]
    na = rng.randint(1, 3)
    nm = rng.randint(1, 4)
    aclk = [period() for _ in range(na)]
    mclk = [period() for _ in range(nm)]
    if oneclk:
        aclk = [nocs[0]["clk"]] * na
    mods = []
    nmods = rng.randint(2, min(maxmods, 2 * nodes))
    used = {}
    maxfl = 1
    for i in range(nmods):
        node = rng.randrange(nodes)
        noc = rng.randrange(nn)
        if node in used and rng.random() < 0.6:
            node = rng.randrange(nodes)
        ck = used.setdefault((node), (rng.randrange(na), rng.randrange(nm)))
        ports = []
        for j in range(rng.randint(1, 4)):
            kind = rng.choice(["as", "am"])
            ports.append(dict(n="p%d" % j, k=kind, w=rnd_widths(rng, v), t=rng.randrange(5)))
            if kind == "as":
                ports[-1]["ready"] = rnd_runs(rng)
        mods.append(dict(name="m%d" % i, noc=noc, node=node, ac=ck[0], mc=ck[1], ports=ports))
        if rng.random() < 0.3:
            mods[-1]["whole"] = 1
    # at least one receiver and one sender per case
    if not any(p["k"] == "as" for m in mods for p in m["ports"]):
        mods[0]["ports"][0].update(k="as")
    if not any(p["k"] == "am" and m["noc"] == r["noc"] for m in mods for p in m["ports"] for r in mods for q in r["ports"] if q["k"] == "as"):
        r = [m for m in mods if any(p["k"] == "as" for p in m["ports"])][0]
        s = mods[-1] if mods[-1] is not r else mods[0]
        s["noc"] = r["noc"]
        s["ports"].append(dict(n="px", k="am", w=rnd_widths(rng, v), t=rng.randrange(5)))
    rd = dict(nocs=nocs, aclk=aclk, mclk=mclk, mods=mods)
    for n in nocs:
        n["obuf"] = rng.choice([1, 2, 2, 3, 8])
    case = dict(v=v, rads=[rd], driver=rng.choice(mclk + [5.0]), sends={})
    # traffic
    recv = [(m, p) for m in mods for p in m["ports"] if p["k"] == "as"]
    send = [(m, p) for m in mods for p in m["ports"] if p["k"] == "am"]
    total = rng.choice([rng.randint(1, 12), rng.randint(5, maxmsgs), maxmsgs]) if nsends is None else nsends
    pattern = rng.choice(["uniform", "hotspot", "pair", "burst"])
    hot = rng.choice(recv)
    sends = {}
    pair = {}
    for num in range(total):
        m, p = rng.choice(send)
        full = m["name"] + "." + p["n"]
        cand = [(rm, rp) for rm, rp in recv if rm["noc"] == m["noc"]]
        if not cand:
            continue
        if pattern == "hotspot" and hot[0]["noc"] == m["noc"] and rng.random() < 0.8:
            rm, rp = hot
        elif pattern == "pair":
            rm, rp = pair.setdefault(full, rng.choice(cand))
        else:
            rm, rp = rng.choice(cand)
        # a receiver is at least as wide as its senders, counted in flits
        if flits(v, rp["w"]) < flits(v, p["w"]):
            rp["w"] = p["w"]
        gap = 0 if pattern == "burst" or rng.random() < 0.5 else rng.choice([1, 2, rng.randint(0, 30), rng.randint(0, 200)])
        sends.setdefault(full, []).append([gap, rm["name"] + "." + rp["n"], userval(rng, v, num), rng.randrange(2), hexdata(rng, W[v]["axis"])])
    case["sends"] = sends
    # widening a receiver may not make later senders too wide: widths only grow
    for m in mods:
        for p in m["ports"]:
            maxfl = max(maxfl, flits(v, p["w"]))
    for n in nocs:
        # the ejection side takes a packet apart once it is complete: the
        # buffers and credits of a virtual channel hold at least one packet
        n["vc_buf"] = max(maxfl, n["vc_buf"]) if rng.random() < 0.6 else maxfl
        n["fifo"] = rng.choice([maxfl, maxfl, maxfl + 1, maxfl + rng.randint(0, 20), 16 if maxfl <= 16 else maxfl, 64])
    return case


def tdest_of(v, node, rad=0, remote=0):
    d = W[v]["destw"]
    return node | (remote << d) | (rad << (2 * d))


def repeats(case, rng):
    """in some cases many beats carry the data, the flags and the upper user bits of the beat before"""
    if rng.random() < 0.25:
        for l in case["sends"].values():
            for a, b in zip(l, l[1:]):
                if rng.random() < 0.5:
                    b[2:] = ["%x" % (int(a[2], 16) >> 11 << 11 | int(b[2], 16) & 2047)] + a[3:]
    return case


def finish_axis(case):
    """Add the run-time script lines and limits to a stream case."""
    pid, port = ids(case)
    want = 0
    slow = 1.0
    for r, rd in enumerate(case["rads"]):
        slow = max([slow] + rd["mclk"] + rd["aclk"] + [n["clk"] for n in rd["nocs"]])
    maxgap = 0
    for r, rd in enumerate(case["rads"]):
        rd["lines"] = []
    longest = 0
    for full, l in case["sends"].items():
        r, name = split(full)
        rd = case["rads"][r]
        tot = 0
        for g, dst, u, last, d in l:
            dr, dn = split(dst)
            dp = port[(dr, dn)]
            if dr == r:
                td = tdest_of(case["v"], dp["node"], r, 0)
            else:
                # the device's own portal is found by the network, whatever the local node says
                td = tdest_of(case["v"], int(u, 16) % (1 << W[case["v"]]["destw"]), dr, dp["node"])
            rd["lines"].append("s %s %d %d %d %s %d %s" % (name, g, dp["iface"], td, u, last, d))
            want += 2
            maxgap = max(maxgap, g)
            tot += g
        longest = max(longest, tot)
    runs = [x for rd in case["rads"] for m in rd["mods"] for p in m["ports"] for x in p.get("ready", [])]
    case["want"] = want
    # nothing for this long means stuck: far longer than any gap, ready run or
    # network traversal
    case["stallns"] = int(slow * (3000 + 4 * maxgap + 40 * max(runs + [1])) + 2000)
    if len(case["rads"]) > 1:
        case["stallns"] += int(case["driver"] * (case["ir"]["lat"] + 4 * case["ir"]["tot"] + 100))
    case["maxns"] = int(case["stallns"] * 20 + slow * want * 400)
    case["drainns"] = int(slow * 200)
    return case


def split(full):
    if full[0].isdigit() and ":" in full:
        a, b = full.split(":", 1)
        return int(a), b
    return 0, full


def mask(hexs, bits):
    return "%x" % (int(hexs, 16) & ((1 << bits) - 1))


def ordered(case):
    """True if every class has a single virtual channel on every network."""
    return all(b == e for rd in case["rads"] for n in rd["nocs"] for b, e in n["cls"])


def judge_axis(case, g, exact_order=None, check_live=False, check_data=True, check_hold=False):
    v = case["v"]
    pid, port = ids(case)
    rev = {i: k for k, i in pid.items()}
    out = []
    acc_n = {k: len(x) for k, x in g.acc.items()}
    exp = collections.defaultdict(lambda: collections.defaultdict(list))   # recv id -> sender -> [fields]
    for full, l in case["sends"].items():
        r, name = split(full)
        i = pid[(r, name)]
        n = acc_n.get(i, 0)
        idx = [x[1] for x in g.acc.get(i, [])]
        if idx != list(range(n)):
            out.append(V("harness", "accept indices %s" % idx))
        sw = port[(r, name)]["w"]
        for g_, dst, u, last, d in l[:n]:
            dr, dn = split(dst)
            dp = port[(dr, dn)]
            wmask = min(W[v]["axis"], sw)
            exp[pid[(dr, dn)]][i].append((u.lstrip("0") or "0", last, mask(d, wmask), wmask, r, dr, dn))
        if check_live and n < len(l):
            out.append(V("not-accepted", "%s: %d of %d beats accepted, then the network stopped" % (full, n, len(l))))
    if check_data:
        for i, l in g.rec.items():
            if i not in exp:
                out.append(V("spurious", "port %s received %d beats nobody sent: %s" % (rev[i], len(l), l[:2])))
    for i, by in exp.items():
        r, name = rev[i]
        got = g.rec.get(i, [])
        dp = port[(r, name)]
        n_exp = sum(len(x) for x in by.values())
        if check_live and len(got) < n_exp:
            out.append(V("not-delivered", "port %s received %d of %d accepted beats" % (rev[i], len(got), n_exp)))
        if not check_data:
            continue
        tdest = tdest_of(v, dp["node"], r, 0)
        # match greedily: per sender queues in order
        for q in ([True] if exact_order is None else [exact_order]):
            pend = {s: list(x) for s, x in by.items()}
            for ps, tid, td, u, last, data in got:
                hit = None
                late = None
                for s, x in pend.items():
                    for k, e in enumerate(x):
                        if e[0] == u and e[1] == last and e[2] == mask(data, e[3]):
                            if k == 0:
                                hit = (s, 0)
                                break
                            if late is None:
                                late = (s, k)
                            break
                    if hit:
                        break
                if hit is None and late is not None:
                    if q:
                        out.append(V("reordered", "port %s received a beat of sender %s %d places early (at %d ps)" % (rev[i], rev[late[0]], late[1], ps)))
                    hit = late
                if hit is None:
                    # duplicate of something already matched, or altered?
                    alld = [e for x in by.values() for e in x if e[0] == u and e[1] == last and e[2] == mask(data, e[3])]
                    out.append(V("duplicate" if alld else "altered", "port %s received user=%s last=%d data=%s at %d ps, which matches no outstanding beat" % (rev[i], u, last, data, ps)))
                    continue
                e = pend[hit[0]].pop(hit[1])
                if e[4] == r:
                    if tid != dp["iface"]:
                        out.append(V("tid", "port %s: interface id %d, addressed %d" % (rev[i], tid, dp["iface"])))
                    if td != tdest:
                        out.append(V("tdest", "port %s: destination %d, addressed %d" % (rev[i], td, tdest)))
            if g.end and g.end[0] in ("done", "stall"):
                for s, x in pend.items():
                    if x:
                        out.append(V("lost", "port %s never received %d beats of %s (end: %s)" % (rev[i], len(x), rev[s], g.end[0])))
    if check_hold and g.hold:
        out.append(V("not-held", "; ".join(g.hold[:3])))
    return out


def shrink_axis(case):
    def clean(c):
        # drop ports and modules nobody uses
        used = set()
        for full, l in c["sends"].items():
            used.add(full)
            used.update(x[1] for x in l)
        for r, rd in enumerate(c["rads"]):
            pre = "%d:" % r if len(c["rads"]) > 1 else ""
            for m in rd["mods"]:
                m["ports"] = [p for p in m["ports"] if pre + m["name"] + "." + p["n"] in used]
            rd["mods"] = [m for m in rd["mods"] if m["ports"]]
            if not rd["mods"]:
                return None
        return finish_axis(c)
    cp = lambda: json.loads(json.dumps(case))
    c = clean(cp())
    if c and core.h(c) != core.h(case):
        yield c
    # fewer senders
    keys = list(case["sends"])
    if len(keys) > 1:
        for part in core._ddmin(keys):
            c = cp()
            c["sends"] = {k: case["sends"][k] for k in part}
            if part:
                c = clean(c)
                if c:
                    yield c
    for k in keys:
        for part in core._ddmin(case["sends"][k]):
            c = cp()
            if part:
                c["sends"][k] = part
            else:
                del c["sends"][k]
            if c["sends"]:
                c = clean(c)
                if c:
                    yield c
    for k in keys:
        for j, s in enumerate(case["sends"][k]):
            for pos, val in ((0, 0), (2, "%x" % (int(s[2], 16) & 0x7ff)), (3, 0), (4, "1")):
                if s[pos] != val:
                    c = cp()
                    c["sends"][k][j][pos] = val
                    yield finish_axis(c)
    for r, rd in enumerate(case["rads"]):
        for i, m in enumerate(rd["mods"]):
            if m.get("whole"):
                c = cp()
                del c["rads"][r]["mods"][i]["whole"]
                yield finish_axis(c)
            for j, p in enumerate(m["ports"]):
                if p.get("ready"):
                    c = cp()
                    c["rads"][r]["mods"][i]["ports"][j]["ready"] = []
                    yield finish_axis(c)
        base = dict(vc_buf=8, out_buf=8, vca="islip", swa="islip", iters=1, wtc=0, cd=1, rd=1, va=1, sa=1, obuf=2, clk=1.0)
        for i, n in enumerate(rd["nocs"]):
            for kk, val in base.items():
                if n[kk] != val:
                    c = cp()
                    c["rads"][r]["nocs"][i][kk] = val
                    yield finish_axis(c)
        for lst in ("aclk", "mclk"):
            for i, x in enumerate(rd[lst]):
                for val in (1.0, 2.0):
                    if x != val and not (x == 1.0):
                        c = cp()
                        c["rads"][r][lst][i] = val
                        yield finish_axis(c)
