"""C02: knob files are read back exactly."""
import os
import core
from core import Check, Outcome, V

SHARED = {"radsim_root_dir": "s", "cluster_topology": "s", "telemetry_log_verbosity": "i", "num_rads": "i", "inter_rad_latency_cycles": "i",
          "inter_rad_fifo_num_slots": "i", "inter_rad_bw_accept_cycles": "i", "inter_rad_bw_total_cycles": "i", "sim_driver_period": "d",
          "telemetry_traces": "vs"}
PERRAD = {"radsim_user_design_root_dir": "s", "design_name": "s", "noc_num_nocs": "i", "dram_num_controllers": "i", "noc_payload_width": "vi",
          "noc_vcs": "vi", "noc_num_nodes": "vi", "noc_adapters_fifo_size": "vi", "noc_adapters_obuff_size": "vi", "dram_queue_sizes": "vi",
          "noc_clk_period": "vd", "noc_adapters_clk_period": "vd", "design_clk_periods": "vd", "dram_clk_periods": "vd",
          "design_noc_placement": "vs", "noc_adapters_in_arbiter": "vs", "noc_adapters_out_arbiter": "vs", "noc_adapters_vc_mapping": "vs",
          "dram_config_files": "vs"}


def val(rng, t):
    if t == "i":
        return str(rng.choice([0, 1, 2, 5, 10, 64, 1000, 2147483647, -1, -2147483648, rng.randint(0, 10 ** 6)]))
    if t == "d":
        return rng.choice(["5.0", "0.571", "1", "3.32", "1e-3", "2.5e2", "0.1", "1000000", "-1.5", repr(rng.random()), repr(rng.uniform(0, 1e4))])
    a = "abcdefghijklmnopqrstuvwxyzABC0123456789_-./:"
    return "".join(rng.choice(a) for _ in range(rng.choice([1, 3, 8, 20, 60])))


class C02(Check):
    prop = "C02"
    targets = ["unith_a"]
    technique = "property-based testing: generated knob files read back through every accessor against a dictionary model"
    rule = "at least 10 knobs queried, or a faulty file or an absent knob was refused"
    quick_n = 300
    thorough_n = 6000
    cpu_limit = 30
    assumptions = ["one blank between values, values contain no blanks, device ids below the number of devices"]

    def gen(self, rng, i, tier):
        R = rng.choice([1, 1, 2, 3, 5, 16])
        lines = []
        for k, t in SHARED.items():
            for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
                lines.append([k, None, [val(rng, t[-1]) for _ in range(rng.choice([0, 1, 2, 5, 12]) if t[0] == "v" else 1)], rng.choice(["", " "])])
        for k, t in PERRAD.items():
            for r in range(R):
                for _ in range(rng.choice([0, 1, 1, 1, 1, 1, 2])):
                    lines.append([k, r, [val(rng, t[-1]) for _ in range(rng.choice([0, 1, 1, 2, 4, 12]) if t[0] == "v" else 1)], rng.choice(["", " "])])
        for l in lines:
            if l[0] in ("telemetry_traces", "dram_config_files") and l[2] and rng.random() < 0.2:
                l[2] = l[2] + [l[2][-1]] * rng.randint(1, 2)      # the same name again
            if not l[2]:
                l[3] = ""                    # an empty list
        if rng.random() < 0.3:
            lines.append(["cluster_configs", None, ["rad1", "b"], " "])
        rng.shuffle(lines)
        bad = None
        if rng.random() < 0.15:
            bad = rng.choice(["unknown", "unknown", "int", "double"])
            at = rng.randint(0, len(lines))
            if bad == "unknown":
                k = rng.choice(["noc_vc", "design_clk_period", "telemetry", "x", "Noc_vcs", "noc_num_nocs_", "sim_driver_period_ns", "noc_topology"])
                lines.insert(at, [k, None if rng.random() < 0.5 else 0, ["1"], " "])
            elif bad == "int":
                lines.insert(at, [rng.choice(["num_rads", "telemetry_log_verbosity"]), None, [rng.choice(["abc", "x1", "", "-"])], ""])
            else:
                lines.insert(at, ["sim_driver_period", None, [rng.choice(["fast", "-", ""])], ""])
        return {"R": R, "lines": lines, "bad": bad, "nl": rng.random() < 0.8, "qs": rng.randrange(1 << 30)}

    def execute(self, c, wd):
        import random
        p = os.path.join(wd, "knobs")
        t = "\n".join((k + ("" if r is None else " %d" % r) + "".join(" " + x for x in v) + e) for k, r, v, e in c["lines"])
        with open(p, "w") as f:
            f.write(t + ("\n" if c["nl"] else ""))
        R = c["R"]
        sh, pr = {}, {}
        for k, r, v, e in c["lines"]:
            if k in SHARED and r is None:
                sh[k] = v
            elif k in PERRAD and r is not None:
                pr[(k, r)] = v
        qr = random.Random(c["qs"])
        qs = []                              # query, expected ('= ..' or '!')

        def vec(v, t):
            return "= [%d]" % len(v), v, t
        for k, ty in SHARED.items():
            have = k in sh
            if ty == "vs":
                qs.append(("vss " + k, vec(sh[k], "s") if have else None))
                qs.append(("is telemetry_num_traces", ("= ", [str(len(sh[k]))], "i") if have else None))
                if have and sh[k]:
                    j = qr.randrange(len(sh[k]))
                    qs.append(("vss1 %s %d" % (k, j), ("= ", [sh[k][j]], "s")))
                qs.append(("hvss " + k, ("= ", [str(int(have))], "i")))
            else:
                qs.append(("%ss %s" % (ty, k), ("= ", sh[k], ty) if have else None))
                qs.append(("h%ss %s" % (ty, k), ("= ", [str(int(have))], "i")))
        for k, ty in PERRAD.items():
            for r in range(R):
                have = (k, r) in pr
                v = pr.get((k, r))
                if ty[0] == "v":
                    qs.append(("v%sp %s %d" % (ty[1], k, r), vec(v, ty[1]) if have else None))
                    if have and v:
                        j = qr.randrange(len(v))
                        qs.append(("v%sp1 %s %d %d" % (ty[1], k, r, j), ("= ", [v[j]], ty[1])))
                    qs.append(("hv%sp %s %d" % (ty[1], k, r), ("= ", [str(int(have))], "i")))
                else:
                    qs.append(("%sp %s %d" % (ty, k, r), ("= ", v, ty) if have else None))
                    qs.append(("h%sp %s %d" % (ty, k, r), ("= ", [str(int(have))], "i")))
        if len(qs) > 150:
            qs = qr.sample(qs, 150)
        qr.shuffle(qs)
        r = core.run_proc([self.bin["unith_a"]], cwd=wd, cpu=self.cpu_limit,
                          stdin=("knobs %d %s\n" % (R, p) + "".join(q + "\n" for q, _ in qs) + "end\n").encode())
        if r.timeout:
            return Outcome(inconclusive="time")
        L = [l for l in r.out.splitlines() if l[:1] in "=!?" or l.startswith(("parsed", "exit ", "END"))]
        sig = core.h([c["lines"][:20], R, c["bad"]])
        tags = ["bad:" + c["bad"] if c["bad"] else "good", "rads%d" % R]
        if c["bad"]:
            if "parsed" in L or "exit 0" in L:
                return Outcome([V("accepted", "a knob file with a bad line (%s) was accepted" % c["bad"])], sig=sig, tags=tags)
            return Outcome([], nontrivial=True, sig=sig, tags=tags)
        if "parsed" not in L:
            return Outcome([V("refused", "a valid knob file was refused: %s %s" % (L[-2:], r.err.strip()[-200:]))], sig=sig, tags=tags)
        vs, absent = [], 0
        for (q, want), got in zip(qs, L):
            if want is None:
                absent += 1
                if not got.startswith("!"):
                    vs.append(V("made-up", "%s of an absent knob answers %s" % (q, got[:80])))
                continue
            pre, v, ty = want
            g = got.split()
            w = pre.split()
            vals = g[len(w):]
            ok = g[:len(w)] == w and len(vals) == len(v)
            if ok:
                for a, b in zip(vals, v):
                    if ty == "d":
                        ok = ok and float(a) == float(b)
                    elif ty == "i":
                        ok = ok and int(a) == int(b)
                    else:
                        ok = ok and a == b
            if not ok:
                vs.append(V("value", "%s answers %s, written %s" % (q, got[:120], v)))
        return Outcome(vs[:1], nontrivial=len(qs) >= 10, sig=sig, tags=tags, evals=len(qs))

    def shrink(self, c):
        yield from core.shrink_list(c, ["lines"])
        if c["R"] > 1:
            R = c["R"] - 1
            yield dict(c, R=R, lines=[l for l in c["lines"] if l[1] is None or l[1] < R])


CHECK = C02()
