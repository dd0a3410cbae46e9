"""C03: the configuration script generates what the user configured."""
import copy, math, os, re, shutil, sys
from fractions import Fraction
import yaml
import build, core
from core import Check, Outcome, V

TYPES = ("read_request", "write_request", "write_data", "read_reply", "write_reply")
# values used when the configuration file leaves a parameter out
DEFNOC = {"type": "2d", "clk_period": 0.571, "routing_func": "dim_order", "vc_buffer_size": 8, "output_buffer_size": 8,
          "router_uarch": "iq", "vc_allocator": "islip", "sw_allocator": "islip", "credit_delay": 1, "routing_delay": 1,
          "vc_alloc_delay": 1, "sw_alloc_delay": 1}
DEFADP = {"clk_period": 1.25, "fifo_size": 16, "obuff_size": 2, "in_arbiter": "fixed_rr", "out_arbiter": "priority_rr", "vc_mapping": "direct"}
DEFINT = {"max_axis_tdata_width": 512, "axis_tkeep_width": 8, "axis_tstrb_width": 8, "axis_tuser_width": 75, "axi_id_width": 8,
          "axi_user_width": 64, "max_axi_data_width": 512}
DEFDRAM = {"num_controllers": 0, "clk_periods": [2.0], "queue_sizes": [64], "config_files": ["HBM2_8Gb_x128"]}
DEFCL = {"sim_driver_period": 5.0, "telemetry_log_verbosity": 0, "telemetry_traces": ["trace0", "trace1"], "cluster_topology": "all-to-all",
         "inter_rad_latency": 5.0, "inter_rad_bw": 25.6, "inter_rad_fifo_num_slots": 1000}
ALLOC = ["islip", "separable_input_first", "wavefront", "max_size", "pim", "select"]
PERIODS = [0.2, 0.5, 0.571, 1.0, 1.25, 1.5, 2.0, 2.5, 3.32, 4.0, 5.0, 8.0, 10.0, 6.666]


def gen_noc(rng, i):
    top = rng.choice(["mesh", "mesh", "torus", "anynet"])
    types = rng.choice([1, 2, 3, 5, 5])
    n = {"topology": top, "type": "3d" if top == "mesh" and rng.random() < 0.35 else "2d",
         "dim_x": rng.choice([2, 3, 4, 5, 7, 8, 10, 16, 17]), "dim_y": rng.choice([2, 3, 4, 6, 8, 9, 12]),
         "routing_func": rng.choice(["dim_order", "dor", "min", "xy_yx", "dor_no_express"]),
         "num_packet_types": types, "vcs": types * rng.choice([1, 1, 2, 3, 4]),
         "vc_buffer_size": rng.choice([1, 4, 8, 16, 100]), "output_buffer_size": rng.choice([1, 8, 16]),
         "router_uarch": "iq", "vc_allocator": rng.choice(ALLOC), "sw_allocator": rng.choice(ALLOC),
         "credit_delay": rng.randint(0, 4), "routing_delay": rng.randint(0, 4), "vc_alloc_delay": rng.randint(1, 4), "sw_alloc_delay": rng.randint(1, 4),
         "clk_period": rng.choice(PERIODS), "payload_width": rng.choice([1, 32, 47, 82, 128, 166, 512, 600]), "num_nodes": 0}
    if top == "anynet":
        n["num_nodes"] = rng.choice([2, 5, 12, 16, 64, 100, 129])
        n["anynet_file"] = "/some/where/any%d" % i
    return n


def gen_bw(rng, period, width):
    r = rng.random()
    if r < 0.5:                          # a fraction of the width per cycle
        d = rng.choice([2, 3, 4, 5, 8, 10, 16, 20, 100, 125, 1000])
        f = Fraction(rng.randint(1, d), d)
        return float(round(float(f) * width / period, rng.choice([1, 2, 3, 6])))
    if r < 0.9:
        return rng.choice([25.6, 51.2, 102.4, 12.8, 100, 50, 10, 1.0, 64, 6.4, 33.3, rng.randint(1, 400), round(rng.uniform(0.5, 300), rng.randint(1, 4))])
    return rng.choice([1000, 51200, 409.6])


def ident(rng):
    return rng.choice("abdefgk") + "".join(rng.choice("abcdefgh_0123") for _ in range(rng.randint(0, 8)))


class C03(Check):
    prop = "C03"
    targets = []
    technique = "property-based testing: generated configuration files through the generator, its outputs read back by independent parsers"
    rule = "generation succeeded with at least two devices, configurations or networks, or a non-default topology; or a faulty file was refused"
    quick_n = 250
    thorough_n = 4000
    cpu_limit = 30
    assumptions = ["list parameters have one entry per network", "configurations of one cluster share the network parameters",
                   "bandwidth of at least a thousandth of the stream width per driver cycle"]

    def gen(self, rng, i, tier):
        n = rng.choice([1, 1, 1, 2, 3])
        nocs = [gen_noc(rng, j) for j in range(n)]
        omit = []
        if n == 1 and rng.random() < 0.4:
            omit = [k for k in DEFNOC if rng.random() < 0.3]
        ncfg = rng.choice([1, 1, 2, 3])
        names = []
        while len(names) < ncfg:
            x = ident(rng)
            if x not in names:
                names.append(x)
        designs = []
        while len(designs) < rng.randint(1, ncfg):
            x = ident(rng)
            if x not in designs:
                designs.append(x)
        confs = []
        for j, nm in enumerate(names):
            d = {}
            nd = rng.randint(0, 4)
            if rng.random() < 0.85:
                d["dram"] = {"num_controllers": nd, "clk_periods": [rng.choice(PERIODS) for _ in range(max(1, nd))],
                             "queue_sizes": [rng.choice([1, 16, 64, 128]) for _ in range(max(1, nd))],
                             "config_files": [rng.choice(["HBM2_8Gb_x128", "DDR4_8Gb_x16_2400", "GDDR6_8Gb_x16"]) for _ in range(max(1, nd))]}
                if rng.random() < 0.2:
                    del d["dram"][rng.choice(sorted(d["dram"]))]
            d["design"] = {"name": designs[j] if j < len(designs) else rng.choice(designs), "noc_placement": [ident(rng) + ".place"],
                           "clk_periods": [rng.choice(PERIODS) for _ in range(rng.randint(1, 5))]}
            confs.append([nm, d])
        R = rng.choice([1, 1, 2, 2, 3, 4, 6]) if ncfg == 1 else rng.choice([ncfg, ncfg, ncfg + 1, ncfg + 3, 1])
        use = list(names[:R])
        while len(use) < R:
            use.append(rng.choice(names))
        rng.shuffle(use)
        adp = {"clk_period": [rng.choice(PERIODS) for _ in range(rng.choice([n, n + 1]))], "fifo_size": [rng.choice([4, 8, 16, 64]) for _ in range(n)],
               "obuff_size": [rng.choice([1, 2, 4]) for _ in range(n)], "in_arbiter": ["fixed_rr"] * n, "out_arbiter": ["priority_rr"] * n,
               "vc_mapping": ["direct"] * n}
        if n == 1:
            for k in list(adp):
                if rng.random() < 0.15:
                    del adp[k]
        itf = {}
        for k, vals in (("max_axis_tdata_width", [8, 64, 512, 1024]), ("axis_tkeep_width", [8, 64]), ("axis_tstrb_width", [8, 16]),
                        ("axis_tuser_width", [1, 21, 75, 130]), ("axi_id_width", [4, 8, 12]), ("axi_user_width", [1, 64, 80]),
                        ("max_axi_data_width", [32, 512, 1024])):
            if rng.random() < 0.6:
                itf[k] = rng.choice(vals)
        cl = {"num_rads": R, "cluster_configs": use}
        per = rng.choice(PERIODS)
        for k, f in (("sim_driver_period", lambda: per), ("telemetry_log_verbosity", lambda: rng.randint(0, 3)),
                     ("telemetry_traces", lambda: [rng.choice(["", "Mem ", "a b "]) + ident(rng) for _ in range(rng.randint(1, 9))]),
                     ("cluster_topology", lambda: "all-to-all"),
                     ("inter_rad_latency", lambda: rng.choice([0, 5, 2100, 10 * per, per, round(per * rng.randint(1, 50), 3), round(rng.uniform(0, 900), 2)])),
                     ("inter_rad_bw", lambda: gen_bw(rng, cl.get("sim_driver_period", 5.0), itf.get("max_axis_tdata_width", 512))),
                     ("inter_rad_fifo_num_slots", lambda: rng.choice([1, 16, 1000]))):
            if rng.random() < 0.85:
                cl[k] = f()
        extra = {}
        if rng.random() < 0.3:
            extra["packet_id_width"] = rng.choice([8, 16, 32, 64])
        if rng.random() < 0.3:
            extra["max_num_router_dest_interfaces"] = rng.choice([2, 5, 8, 32, 33])
        order = ["noc", "noc_adapters", "interfaces", "cluster"] + ["config"] * ncfg
        rng.shuffle(order)
        c = {"nocs": nocs, "omit": omit, "confs": confs, "adp": adp, "itf": itf, "cl": cl, "extra": extra, "order": order,
             "argv": rng.sample(designs, len(designs)), "ks": rng.randrange(1 << 30), "bad": None}
        if rng.random() < 0.12:
            c["bad"] = rng.choice(["noc-key", "cluster-key", "adapter-key", "interface-key", "config-key", "vcs", "types", "topology", "torus3d", "design", "anynodes"])
        return c

    def text(self, c):
        import random
        kr = random.Random(c["ks"])
        n = len(c["nocs"])
        noc = {"num_nocs": n}
        for k in c["nocs"][0]:
            if k in c["omit"] or k == "num_nodes" and all(x["num_nodes"] == 0 for x in c["nocs"]):
                continue
            noc[k] = [x.get(k) for x in c["nocs"]]
        if any("anynet_file" in x for x in c["nocs"]):
            noc["anynet_file"] = [x.get("anynet_file", "none") for x in c["nocs"]]

        noc.update(c["extra"])
        adp, itf, cl = dict(c["adp"]), dict(c["itf"]), dict(c["cl"])
        confs = copy.deepcopy(c["confs"])
        b = c["bad"]
        if b == "noc-key":
            noc["vsc"] = [5]
        elif b == "adapter-key":
            adp["fifo_sizes"] = [4]
        elif b == "interface-key":
            itf["axis_width"] = 4
        elif b == "cluster-key":
            cl["num_rad"] = 2
        elif b == "config-key":
            confs[-1][1]["design"]["clk_period"] = [1.0]
        elif b == "vcs":
            noc["vcs"] = [7] + noc["vcs"][1:]
            noc["num_packet_types"] = [3] + noc["num_packet_types"][1:]
        elif b == "types":
            noc["vcs"] = [12] + noc["vcs"][1:]
            noc["num_packet_types"] = [6] + noc["num_packet_types"][1:]
        elif b == "topology":
            noc["topology"] = ["ring"] + noc["topology"][1:]
        elif b == "torus3d":
            noc["topology"] = ["torus"] + noc["topology"][1:]
            noc["type"] = ["3d"] + noc.get("type", ["2d"])[1:]
        elif b == "anynodes":
            noc["topology"] = ["anynet"] + noc["topology"][1:]
            noc["anynet_file"] = ["/x"] + noc.get("anynet_file", ["/x"] * n)[1:]
            noc["num_nodes"] = [0] + noc.get("num_nodes", [0] * n)[1:]

        def sh(d):
            k = list(d)
            kr.shuffle(k)
            return {x: d[x] for x in k}
        cf = list(confs)
        out = []
        for s in c["order"]:
            if s == "config":
                nm, d = cf.pop(0)
                sec = {"config " + nm: {k: sh(v) for k, v in sh(d).items()}}
            else:
                sec = {s: sh({"noc": noc, "noc_adapters": adp, "interfaces": itf, "cluster": cl}[s])}
                if not sec[s]:
                    continue
            out.append(yaml.safe_dump(sec, sort_keys=False, default_flow_style=None))
        return "\n".join(out)

    def execute(self, c, wd):
        rs = os.path.join(wd, "rad-sim")
        os.makedirs(rs + "/sim/noc")
        os.makedirs(wd + "/bin")
        with open(wd + "/bin/cmake", "w") as f:
            f.write("#!/bin/sh\nexit 0\n")
        os.chmod(wd + "/bin/cmake", 0o755)
        t = self.text(c)
        for d in c["argv"]:
            os.makedirs(rs + "/example-designs/" + d)
            with open(rs + "/example-designs/%s/config.yml" % d, "w") as f:
                f.write(t)
        shutil.copy(os.path.join(build.REPO, "rad-sim", "config.py"), rs + "/config.py")
        argv = c["argv"] + (["nosuchdesign"] if c["bad"] == "design" else [])
        env = {"PATH": wd + "/bin:" + os.environ["PATH"], "PYTHONDONTWRITEBYTECODE": "1"}
        r = core.run_proc([sys.executable, "config.py"] + argv, cwd=rs, cpu=self.cpu_limit, env=env)
        tags = ["bad:" + c["bad"] if c["bad"] else "nocs%d" % len(c["nocs"]), "rads%d" % c["cl"]["num_rads"], "confs%d" % len(c["confs"])]
        sig = core.h([c["nocs"], c["confs"], c["cl"], c["bad"]])
        if r.timeout:
            return Outcome(inconclusive="time")
        if c["bad"]:
            if r.rc == 0 and "configured successfully" in r.out:
                return Outcome([V("accepted", "faulty configuration (%s) was accepted" % c["bad"])], tags=tags, sig=sig)
            return Outcome([], nontrivial=True, tags=tags, sig=sig)
        if r.rc != 0:
            return Outcome([V("refused", "valid configuration refused (%s): %s" % (r.status(), (r.err.strip() or r.out.strip())[-300:]))], tags=tags, sig=sig)
        vs = self.judge(c, rs)
        nt = len(c["nocs"]) > 1 or c["cl"]["num_rads"] > 1 or len(c["confs"]) > 1 or c["nocs"][0]["topology"] != "mesh"
        return Outcome(vs[:6], nontrivial=nt, tags=tags, sig=sig, evals=1)

    def judge(self, c, rs):
        vs = []
        n, R = len(c["nocs"]), c["cl"]["num_rads"]
        nocs = []
        for x in c["nocs"]:
            x = dict(x, **{k: DEFNOC[k] for k in c["omit"]})
            k = max(x["dim_x"], x["dim_y"])
            x["k"] = k
            if x["topology"] != "anynet":
                x["num_nodes"] = k * k * (4 if x["type"] == "3d" else 1)
            nocs.append(x)
        adp = {k: c["adp"].get(k, [v]) for k, v in DEFADP.items()}
        itf = dict(DEFINT, **c["itf"])
        cl = dict(DEFCL, **c["cl"])
        confs = {nm: d for nm, d in c["confs"]}

        def read(p):
            try:
                return open(os.path.join(rs, p)).read()
            except OSError:
                return None
        # knob file
        kt = read("sim/radsim_knobs")
        if kt is None:
            return [V("missing", "no knob file")]
        per, shared = {}, {}
        PER = ("design_name", "radsim_user_design_root_dir", "noc_", "design_", "dram_")
        for l in kt.splitlines():
            w = l.split()
            if not w:
                continue
            if w[0].startswith(PER):
                per[(w[0], int(w[1]))] = w[2:]
            else:
                shared[w[0]] = w[1:]

        def num(a, b):
            try:
                return abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(b)))
            except ValueError:
                return False

        def same(got, want):
            want = want if isinstance(want, list) else [want]
            if got is None or len(got) != len(want):
                return False
            return all(num(g, w) if isinstance(w, (int, float)) else g == str(w) for g, w in zip(got, want))
        for r in range(R):
            d = confs[cl["cluster_configs"][r]]
            dr = dict(DEFDRAM, **d.get("dram", {}))
            want = {"design_name": d["design"]["name"], "radsim_user_design_root_dir": rs + "/example-designs/" + d["design"]["name"],
                    "design_noc_placement": d["design"]["noc_placement"], "design_clk_periods": d["design"]["clk_periods"],
                    "noc_num_nocs": n, "noc_clk_period": [x["clk_period"] for x in nocs], "noc_vcs": [x["vcs"] for x in nocs],
                    "noc_payload_width": [x["payload_width"] for x in nocs], "noc_num_nodes": [x["num_nodes"] for x in nocs]}
            want.update({"dram_" + k: v for k, v in dr.items()})
            want.update({"noc_adapters_" + k: v for k, v in adp.items()})
            for k, v in want.items():
                if not same(per.get((k, r)), v):
                    vs.append(V("knob:" + k, "device %d: %s is %s, configured %s" % (r, k, per.get((k, r)), v)))
        for (k, r) in per:
            if r >= R:
                vs.append(V("knob-extra", "knob %s for device %d of %d" % (k, r, R)))
        want = {"num_rads": R, "sim_driver_period": cl["sim_driver_period"], "telemetry_log_verbosity": cl["telemetry_log_verbosity"],
                "inter_rad_fifo_num_slots": cl["inter_rad_fifo_num_slots"], "radsim_root_dir": rs}
        for k, v in want.items():
            if not same(shared.get(k), v):
                vs.append(V("knob:" + k, "%s is %s, configured %s" % (k, shared.get(k), v)))
        tr = shared.get("telemetry_traces")
        if tr is None or len(tr) != len(cl["telemetry_traces"]) or any(a.replace("_", " ") != b.replace("_", " ") for a, b in zip(tr, cl["telemetry_traces"])):
            vs.append(V("knob:telemetry_traces", "traces %s, configured %s" % (tr, cl["telemetry_traces"])))
        fx = lambda v: Fraction(str(v))
        lat = math.ceil(fx(cl["inter_rad_latency"]) / fx(cl["sim_driver_period"]))
        if not same(shared.get("inter_rad_latency_cycles"), lat):
            vs.append(V("latency", "latency of %s ns at %s ns per cycle gives %s cycles, not %d" % (
                cl["inter_rad_latency"], cl["sim_driver_period"], shared.get("inter_rad_latency_cycles"), lat)))
        f = fx(cl["inter_rad_bw"]) * fx(cl["sim_driver_period"]) / itf["max_axis_tdata_width"]
        a, b = shared.get("inter_rad_bw_accept_cycles"), shared.get("inter_rad_bw_total_cycles")
        try:
            a, b = int(a[0]), int(b[0])
            g = Fraction(a, b)
        except (TypeError, ValueError, IndexError, ZeroDivisionError):
            a = b = g = None
        lim = min(f, Fraction(1))            # more than the stream carries: full rate
        if g is None or a < 0 or abs(g - lim) > Fraction(501, 1000000):
            vs.append(V("bandwidth", "%s bits per ns at %s ns and %d bits per cycle is %.4f of the cycles; granted %s of %s" % (
                cl["inter_rad_bw"], cl["sim_driver_period"], itf["max_axis_tdata_width"], float(f), a, b)))
        # network configurations
        for r in range(R):
            for i, x in enumerate(nocs):
                t = read("sim/noc/noc%d_rad%d_config" % (i, r))
                if t is None:
                    vs.append(V("noc-missing", "no configuration of network %d of device %d" % (i, r)))
                    continue
                kv = {}
                for l in t.splitlines():
                    m = re.match(r"\s*([A-Za-z_]\w*)\s*=\s*(.*?)\s*;\s*$", l)
                    if m:
                        kv[m.group(1)] = m.group(2)
                want = {"routing_function": x["routing_func"], "num_vcs": x["vcs"], "vc_buf_size": x["vc_buffer_size"],
                        "output_buffer_size": x["output_buffer_size"], "router": x["router_uarch"], "vc_allocator": x["vc_allocator"],
                        "sw_allocator": x["sw_allocator"], "credit_delay": x["credit_delay"], "routing_delay": x["routing_delay"],
                        "vc_alloc_delay": x["vc_alloc_delay"], "sw_alloc_delay": x["sw_alloc_delay"]}
                if x["topology"] == "anynet":
                    want.update(topology="anynet", network_file=x["anynet_file"])
                else:
                    want.update(topology="cmesh" if x["type"] == "3d" else x["topology"], k=x["k"], n=2)
                    if x["type"] == "3d":
                        want.update(c=4, xr=2, yr=2)
                for k, v in want.items():
                    if kv.get(k) != str(v):
                        vs.append(V("noc:" + k, "network %d of device %d: %s is %s, configured %s" % (i, r, k, kv.get(k), v)))
                used = []
                for ty in TYPES[:x["num_packet_types"]]:
                    try:
                        used.append((int(kv[ty + "_begin_vc"]), int(kv[ty + "_end_vc"])))
                    except (KeyError, ValueError):
                        vs.append(V("vc-class", "network %d: class %s has no VCs" % (i, ty)))
                cover = sorted(v for p, q in used for v in range(p, q + 1))
                if len(used) == x["num_packet_types"] and (cover != list(range(x["vcs"])) or len({q - p for p, q in used}) != 1):
                    vs.append(V("vc-class", "network %d: classes %s do not share %d VCs equally" % (i, used, x["vcs"])))
        # header
        hd = read("sim/radsim_defines.hpp") or ""
        df = dict(re.findall(r"^#define[ \t]+(\w+)[ \t]+([^\n]*?)[ \t]*$", hd, re.M))

        def dn(k):
            try:
                return int(df[k])
            except (KeyError, ValueError):
                return None
        exact = {"NOC_LINKS_PAYLOAD_WIDTH": max(x["payload_width"] for x in nocs), "AXIS_MAX_DATAW": itf["max_axis_tdata_width"],
                 "AXI4_MAX_DATAW": itf["max_axi_data_width"], "AXIS_USERW": itf["axis_tuser_width"], "AXI4_USERW": itf["axi_user_width"],
                 "AXIS_STRBW": itf["axis_tstrb_width"], "AXIS_KEEPW": itf["axis_tkeep_width"], "AXI4_IDW": itf["axi_id_width"]}
        if "packet_id_width" in c["extra"]:
            exact["NOC_LINKS_PACKETID_WIDTH"] = c["extra"]["packet_id_width"]
        for k, v in exact.items():
            if dn(k) != v:
                vs.append(V("header:" + k, "%s is %s, configured %s" % (k, df.get(k), v)))
        atleast = {"NOC_LINKS_VCID_WIDTH": max(x["vcs"] for x in nocs), "NOC_LINKS_TYPEID_WIDTH": max(x["num_packet_types"] for x in nocs),
                   "AXIS_DEST_FIELDW": max([x["num_nodes"] for x in nocs] + [R]), "AXI4_NODE_ADDRW": max([x["num_nodes"] for x in nocs]),
                   "NOC_LINKS_DEST_INTERFACE_WIDTH": c["extra"].get("max_num_router_dest_interfaces", 32)}
        for k, v in atleast.items():
            w = dn(k)
            if w is None or w < 1 or 1 << w < v or w > 24:
                vs.append(V("width:" + k, "%s is %s, which does not count to %d" % (k, df.get(k), v)))
        if dn("NOC_LINKS_DEST_WIDTH") != 3 * (dn("AXIS_DEST_FIELDW") or 0):
            vs.append(V("width:NOC_LINKS_DEST_WIDTH", "%s for three fields of %s" % (df.get("NOC_LINKS_DEST_WIDTH"), df.get("AXIS_DEST_FIELDW"))))
        if ("SINGLE_RAD" in df) != (R == 1):
            vs.append(V("header:SINGLE_RAD", "%d devices, SINGLE_RAD %s" % (R, "SINGLE_RAD" in df)))
        # main program
        mt = read("sim/main.cpp") or ""
        inst = re.findall(r"new\s+(\w+)_system\s*\([^;]*?all_rads\s*\[\s*(\d+)\s*\]", mt)
        want = [(confs[cl["cluster_configs"][r]]["design"]["name"], str(r)) for r in range(R)]
        if sorted(inst) != sorted(want):
            vs.append(V("main:systems", "main instantiates %s, configured %s" % (inst, want)))
        inc = set(re.findall(r"#include\s*[<\"](\w+)_system\.hpp", mt))
        if not {d for d, _ in want} <= inc:
            vs.append(V("main:include", "main includes %s, uses %s" % (sorted(inc), sorted({d for d, _ in want}))))
        if ("RADSimInterRad*" in mt.replace(" *", "*")) != (R > 1):
            vs.append(V("main:inter", "%d devices, network between devices %s" % (R, "RADSimInterRad*" in mt)))
        seen, out = set(), []
        for v in vs:
            if v.kind not in seen:
                seen.add(v.kind)
                out.append(v)
        return out

    def shrink(self, c):
        if len(c["nocs"]) > 1:
            for j in range(len(c["nocs"])):
                d = copy.deepcopy(c)
                del d["nocs"][j]
                d["adp"] = {k: (v[:j] + v[j + 1:] if len(v) >= len(c["nocs"]) else v) for k, v in d["adp"].items()}
                yield d
        for k in ("itf", "extra"):
            for x in list(c[k]):
                yield core.setp(c, [k], {a: b for a, b in c[k].items() if a != x})
        for x in list(c["cl"]):
            if x not in ("num_rads", "cluster_configs"):
                yield core.setp(c, ["cl"], {a: b for a, b in c["cl"].items() if a != x})
        R = c["cl"]["num_rads"]
        if R > 1:
            for r in range(R):
                u = c["cl"]["cluster_configs"]
                yield core.setp(core.setp(c, ["cl", "num_rads"], R - 1), ["cl", "cluster_configs"], u[:r] + u[r + 1:])
        for j, (nm, d) in enumerate(c["confs"]):
            if nm not in c["cl"]["cluster_configs"] and len(c["confs"]) > 1:
                e = copy.deepcopy(c)
                del e["confs"][j]
                e["order"].remove("config")
                yield e
            if "dram" in d:
                e = copy.deepcopy(c)
                del e["confs"][j][1]["dram"]
                yield e
        for o in c["omit"]:
            yield core.setp(c, ["omit"], [x for x in c["omit"] if x != o])


CHECK = C03()
