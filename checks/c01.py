import collections, json
import core, noc, mm, dram
from core import Check, Outcome, V

NODEW = mm.NODEW


class C01(Check):
    prop = "C01"
    targets = ["simh_a", "simh_b", "simh_c", "simh_m"]
    technique = ("property-based testing: generated designs, placement files and clock files in every form and order, the built system queried, clocked and "
                 "sent through, against a reference reading of the two files")
    rule = "a case is non-trivial when at least 4 ports on at least 2 nodes are placed; distinct by the two files and the ports"
    quick_n = 1200
    thorough_n = 15000
    assumptions = ["all modules at one node are listed with the same clocks", "one memory-mapped port per node, as the placement code demands",
                   "the adapter clock is judged by the rate of a saturated stream (within a factor of three, clocks a factor of 4 or more apart)"]

    def gen(self, rng, i, tier):
        v = rng.choice(["a", "a", "b", "c", "m"])
        nr = rng.choice([2, 3]) if v == "m" else 1
        n0 = noc.rnd_noc(rng, v, topo=rng.choice(["mesh", "mesh", "torus"]) if v == "a" else "mesh")
        rads = []
        driver = 1.0
        for r in range(nr):
            nn = 1 if v == "m" else rng.choice([1, 1, 2, 3])
            nocs = []
            for _ in range(nn):
                x = noc.rnd_noc(rng, v, dims=n0["topo"]["k"], topo=n0["topology"])
                x["vcs"], x["cls"] = n0["vcs"], n0["cls"]
                x["clk"] = rng.choice([0.5, 0.75, 1.0])
                x["obuf"] = 2
                nocs.append(x)
            base = rng.choice([1.0, 1.5, 2.0])
            aclk = [base, base * 12, base * 48][:rng.randint(1, 3)]
            rng.shuffle(aclk)
            mclk = [driver] + [round(base * x, 3) for x in rng.sample([0.5, 0.625, 0.7, 0.75, 0.8, 0.9, 1.0], rng.randint(1, 3))]
            nodes = n0["nodes"]
            clk = {}
            kind = {}
            mods = []
            place = []
            free = [(a, b) for a in range(nn) for b in range(nodes)]
            portal = None
            if v == "m":
                portal = rng.randrange(nodes)
                free = [x for x in free if x[1] != portal]
            for k in range(rng.randint(2, 7)):
                name = rng.choice(["m%d", "mod_%d", "M%dx", "zz%da"]) % k
                style = rng.choice(["whole", "ports", "ports", "split"])
                ports = []
                nodes_of = []
                ck = (rng.randrange(len(aclk)), rng.randrange(len(mclk)))
                for j in range(rng.randint(1, 4)):
                    kd = rng.choice(["as", "am", "as", "am", "mm", "ms"])
                    w = rng.randint(1, noc.W[v]["axis" if kd in ("as", "am") else "axi"])
                    ports.append(dict(n=rng.choice(["p%d", "port_%d", "q%d"]) % j, k=kd, w=w, t=rng.randrange(5)))

                def pick(k2, want=None):
                    # an axis node may be shared by modules with the same clocks
                    c = [x for x in free if (x not in kind or (k2 == "axis" and kind[x] == "axis")) and
                         all(clk.get((a, x[1]), ck) == ck for a in range(nn))]
                    if not c:
                        return None
                    x = rng.choice(c)
                    kind[x] = k2
                    clk[x] = ck
                    return x
                got = []
                if style == "whole":
                    if any(p["k"] in ("as", "am") for p in ports):
                        x = pick("axis")
                        if x is None:
                            continue
                        got.append((name, x[0], x[1], "axis"))
                        for p in ports:
                            if p["k"] in ("as", "am"):
                                p["noc"], p["node"] = x
                    mmp = [p for p in ports if p["k"] in ("mm", "ms")]
                    for p in mmp[1:]:
                        ports.remove(p)
                    if mmp:
                        x = pick("mm")
                        if x is None:
                            ports.remove(mmp[0])
                        else:
                            mmp[0]["noc"], mmp[0]["node"] = x
                            got.append((name, x[0], x[1], "aximm"))
                else:
                    x = pick("axis") if any(p["k"] in ("as", "am") for p in ports) else 1
                    if x is None:
                        continue
                    for p in list(ports):
                        y = x
                        if p["k"] in ("mm", "ms"):
                            y = pick("mm")
                        elif style == "split" and rng.random() < 0.5:
                            y = pick("axis") or x
                        if y is None:
                            ports.remove(p)
                            continue
                        p["noc"], p["node"] = y
                        got.append((name + "." + p["n"], y[0], y[1], "axis" if p["k"] in ("as", "am") else "aximm"))
                if not ports:
                    continue
                mods.append(dict(name=name, ac=ck[0], mc=ck[1], ports=ports))
                place += got
            rng.shuffle(place)
            rd = dict(nocs=nocs, aclk=aclk, mclk=mclk, mods=mods)
            if v == "m":
                rd.update(portal=portal, portal_mc=0, portal_ac=0)
                place.insert(rng.randint(0, len(place)), ("portal_inst", 0, portal, "axis"))
            rd["place"] = [list(x) for x in place]
            order = list(range(len(mods) + (v == "m")))
            rng.shuffle(order)
            rd["clkorder"] = order
            for x in nocs:
                mf = max([noc.flits(v, 512 if v == "m" else 1)] + [noc.flits(v, p["w"]) if p["k"] in ("as", "am") else mm.mmflits(v, p["w"]) for m in mods for p in m["ports"]])
                x["vc_buf"], x["fifo"] = mf + rng.choice([0, 2]), mf + rng.choice([0, 4])
            rads.append(rd)
        case = dict(v=v, rads=rads, driver=driver, sends={}, ir=dict(lat=3, acc=1, tot=1, slots=100))
        if sum(len(rd["mods"]) for rd in rads) < 2:
            return self.gen(rng, i, tier)
        _, port = noc.ids(case)
        key = lambda r, f: ("%d:%s" % (r, f)) if nr > 1 else f
        pairs = []
        for (r, f), p in port.items():
            if p["k"] != "am":
                continue
            for (r2, f2), q in port.items():
                if q["k"] == "as" and r2 == r and q["noc"] == p["noc"] and noc.flits(v, q["w"]) >= noc.flits(v, p["w"]):
                    pairs.append((r, f, f2))
        num = 0
        seen = set()
        for r, f, f2 in rng.sample(pairs, len(pairs)):
            if (r, f) in seen:
                continue
            seen.add((r, f))
            for _ in range(rng.randint(1, 2)):
                case["sends"].setdefault(key(r, f), []).append([0, key(r, f2), noc.userval(rng, v, num), rng.randrange(2), noc.hexdata(rng, noc.W[v]["axis"])])
                num += 1
        case["flow"] = None
        far = [x for x in pairs if port[(x[0], x[1])]["node"] != port[(x[0], x[2])]["node"]]
        if far and nr == 1:
            r, f, f2 = rng.choice(far)
            case["sends"] = {a: l[:1] for a, l in sorted(case["sends"].items())[:3]}
            num = sum(len(l) for l in case["sends"].values())
            # alone, once everything else is over
            for k in range(24):
                case["sends"].setdefault(f, []).append([0, f2, noc.userval(rng, v, num), 0, noc.hexdata(rng, noc.W[v]["axis"])])
                if k == 0:
                    case["sends"][f][-1][0] = int(30 * (num + 1) * max(rads[0]["aclk"]) * max(x["fifo"] for x in rads[0]["nocs"]) / min(rads[0]["mclk"])) + 500
                num += 1
            case["flow"] = [f, f2]
            for n in rads[0]["nocs"]:
                n["wtc"] = 0        # a packet need not wait until the one before has left the router
        return self.finish(case)

    def finish(self, case):
        noc.finish_axis(case)
        case["stallns"] = max(case["stallns"], int(40 * max(a for rd in case["rads"] for a in rd["aclk"]) * 20 + 3 * max([0] + [x[0] for l in case["sends"].values() for x in l])))
        case["maxns"] = case["stallns"] * 4 + int(max(a for rd in case["rads"] for a in rd["aclk"]) * 30 * case["want"])
        case["drainns"] = 100
        case["want"] = max(case["want"], 0)
        for rd in case["rads"]:
            rd["queries"] = [m["name"] + "." + p["n"] for m in rd["mods"] for p in m["ports"]]
        return case

    def execute(self, case, wd):
        noc.write(case, wd)
        r, g = noc.simulate(self, case, wd)
        tags = ["v" + case["v"], "nocs%d" % len(case["rads"][0]["nocs"])]
        vs = noc.crash(r, g)
        if vs:
            return Outcome(vs, tags=tags)
        if g.end[0] == "max":
            return Outcome(inconclusive="time limit with progress", tags=tags)
        v = case["v"]
        pid, port = noc.ids(case)
        for (rr, f), p in port.items():
            if f not in set(case["rads"][rr]["queries"]):
                continue
            q = g.ports.get((rr, f))
            if q is None:
                vs.append(V("missing", "port %s of device %d not reported" % (f, rr)))
                continue
            exp = dict(noc=p["noc"], node=p["node"], iface=p["iface"], dest=p["node"], ifid=p["iface"])
            bad = {k: (q[k], e) for k, e in exp.items() if q[k] != e}
            if bad:
                vs.append(V("placement", "port %s of device %d: (is, should be) %s" % (f, rr, bad)))
            if p["k"] in ("mm", "ms"):
                sel = q["base"] >> (64 - NODEW[v])
                if sel != p["node"]:
                    vs.append(V("base", "port %s of device %d at node %d has base address %x, which selects node %d" % (f, rr, p["node"], q["base"], sel)))
                elif q["base"] & ((1 << (64 - NODEW[v])) - 1):
                    vs.append(V("base", "port %s of device %d: base address %x is not the start of the node's range" % (f, rr, q["base"])))
        for rr, rd in enumerate(case["rads"]):
            for m in rd["mods"]:
                k = g.clk.get("sys%d.top.%s" % (rr, m["name"]), [])
                if len(k) < 2:
                    vs.append(V("clock", "module %s of device %d was not clocked" % (m["name"], rr)))
                    continue
                want = rd["mclk"][m["mc"]] * 1000
                if abs((k[1] - k[0]) - want) > 1:
                    vs.append(V("clock", "module %s of device %d has a period of %d ps, listed %d" % (m["name"], rr, k[1] - k[0], want)))
        vs += noc.judge_axis(case, g, exact_order=noc.ordered(case) if not vs else None, check_live=True)
        if case["flow"] and not vs and all((0, f) in port for f in case["flow"]):
            rd = case["rads"][0]
            f, f2 = case["flow"]
            p, q = port[(0, f)], port[(0, f2)]
            fl = noc.flits(v, p["w"])
            t = [x[0] for x in g.rec.get(pid[(0, f2)], [])][-16:]
            if len(t) == 16:
                avg = (t[-1] - t[0]) / 15000.0
                slow = max(rd["aclk"][m["ac"]] for m in (p["m"], q["m"]))
                trip = max(n["rd"] + n["va"] + n["sa"] + n["cd"] + 6 for n in rd["nocs"])    # of a credit, in cycles
                lo, hi = 0.9 * fl * slow, 3.0 * fl * slow + max(12, 1.5 * trip) * fl * max([n["clk"] for n in rd["nocs"]] + rd["mclk"])
                if not lo <= avg <= hi:
                    vs.append(V("adapter-clock", "a stream of %d-flit beats from %s to %s comes at one beat in %.1f ns; their adapter clocks are %s ns" %
                                (fl, f, f2, avg, [rd["aclk"][m["ac"]] for m in (p["m"], q["m"])])))
        np_ = sum(len(m["ports"]) for rd in case["rads"] for m in rd["mods"])
        nn = len(set((r, p["noc"], p["node"]) for (r, f), p in port.items()))
        return Outcome(vs[:6], nontrivial=np_ >= 4 and nn >= 2, evals=np_, sig=core.h([(rd["place"], [(m["name"], m["ac"], m["mc"]) for m in rd["mods"]]) for rd in case["rads"]]),
                       tags=tags + ["end-" + g.end[0]] + (["flow"] if case["flow"] else []))

    def shrink(self, case):
        cp = lambda: json.loads(json.dumps(case))
        flat = [(f, j) for f, l in sorted(case["sends"].items()) for j in range(len(l))]
        if flat:
            for part in core._ddmin(flat):
                keep = set(map(tuple, part))
                c = cp()
                c["sends"] = {f: [x for j, x in enumerate(l) if (f, j) in keep] for f, l in c["sends"].items()}
                c["sends"] = {f: l for f, l in c["sends"].items() if l}
                yield self.finish(c)
        used = set(x[1] for l in case["sends"].values() for x in l) | set(case["sends"])
        for r, rd in enumerate(case["rads"]):
            for a, m in enumerate(rd["mods"]):
                pre = "%d:" % r if len(case["rads"]) > 1 else ""
                if any(pre + m["name"] + "." + p["n"] in used for p in m["ports"]):
                    continue
                c = cp()
                del c["rads"][r]["mods"][a]
                c["rads"][r].pop("clkorder", None)
                c["rads"][r]["place"] = [l for l in c["rads"][r]["place"] if l[0].split(".")[0] != m["name"]]
                if sum(len(x["mods"]) for x in c["rads"]):
                    yield self.finish(c)


CHECK = C01()
