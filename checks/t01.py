import collections, json, os, re
import core, noc, mm
from core import Check, Outcome, V
import r02

PW = 512    # width of a portal's network ports


def near(a, b, extra=0.0):
    """Equal up to the six digits the files have."""
    return abs(a - b) <= 6e-6 * max(abs(a), abs(b)) + 2e-6 + extra


class T01(Check):
    prop = "T01"
    targets = ["simh_a", "simh_b", "simh_c", "simh_m"]
    technique = ("property-based testing: generated stream, memory-mapped and multi-device traffic in the real simulator; the dumped statistics, flit trace and traffic "
                 "flows are compared with the transfers seen at the ports")
    rule = "a case is non-trivial when at least 4 transactions between at least two pairs of nodes were recorded; distinct by the whole generated design and traffic"
    quick_n = 2500
    thorough_n = 40000
    assumptions = ["files carry six significant digits and are compared to that", "the receipt of a memory-mapped transfer is the time it is presented to the module",
                   "the packetization time of a memory-mapped transfer is the end of its modelled packetization, which overlaps its flight",
                   "networks of different devices are told apart only in the traffic flows"]

    def gen(self, rng, i, tier):
        kind = rng.choice(["axis", "axis", "mm", "mm", "multi"])
        if kind == "axis":
            case = noc.finish_axis(noc.gen_axis(rng))
        elif kind == "mm":
            case = mm.finish(mm.gen_mm(rng))
        else:
            case = r02.CHECK.gen(rng, i, tier)
        case["kind"] = kind
        case["stats"] = 1
        case["flows"] = rng.choice([1, 100, 12345, rng.randint(1, 10 ** 6)])
        case["ftrace"] = int(rng.random() < 0.5)
        return case

    def execute(self, case, wd):
        noc.write(case, wd)
        r, g = noc.simulate(self, case, wd)
        kind = case["kind"]
        tags = ["v" + case["v"], kind]
        vs = noc.crash(r, g)
        if vs:
            return Outcome(vs, tags=tags)
        if g.end[0] != "done":
            return Outcome(inconclusive="not all traffic arrived", tags=tags)
        vs = []
        rows = self.rows(wd + "/stats.csv", vs)
        exp = self.expect_mm(case, g) if kind == "mm" else self.expect_axis(case, g)
        if exp is None:
            return Outcome(inconclusive="transfers could not be told apart", tags=tags)
        pairs = self.match(case, rows, exp, vs)
        for row, e in pairs:
            self.judge_row(case, row, e, vs)
        if case.get("ftrace") and kind != "multi":
            self.judge_trace(case, wd, pairs, vs)
            tags.append("trace")
        self.judge_flows(case, wd, exp, vs)
        return Outcome(vs[:6], nontrivial=len(exp) >= 4 and len({(e["noc"], e["src"], e["dst"]) for e in exp}) >= 2,
                       evals=max(1, len(exp)), sig=core.h([case["rads"], case.get("sends"), case.get("q")]), tags=tags)

    COLS = ("id", "noc", "src", "dst", "w", "hops", "t_init", "t_packet", "t_inject", "t_eject", "t_depacket", "t_receive", "latency")

    def rows(self, path, vs):
        out = []
        try:
            with open(path) as f:
                lines = f.read().split("\n")
        except OSError:
            vs.append(V("format", "no statistics file was written"))
            return out
        for l in lines[1:]:
            if not l.strip():
                continue
            t = [x.strip() for x in l.split(",")]
            if len(t) != len(self.COLS):
                vs.append(V("format", "statistics line with %d fields: %s" % (len(t), l)))
                continue
            out.append({c: (int(x) if k < 6 else float(x)) for k, (c, x) in enumerate(zip(self.COLS, t))})
        seen = collections.Counter(r["id"] for r in out)
        for k, n in seen.items():
            if n > 1:
                vs.append(V("count", "%d records for transaction %d" % (n, k)))
        return out

    def expect_axis(self, case, g):
        pid, port = noc.ids(case)
        exp = []
        got = {}
        for (r, f), i in pid.items():
            if port.get((r, f), {}).get("k") != "as":
                continue
            for x in g.rec.get(i, []):
                key = (r, f, int(x[3], 16) & 0x7ff)
                if key in got:
                    return None
                got[key] = x[0] / 1000.0
        for full, l in case["sends"].items():
            r, f = noc.split(full)
            p = port[(r, f)]
            for (ps, k) in g.acc.get(pid[(r, f)], []):
                x = l[k]
                dr, df = noc.split(x[1])
                q = port[(dr, df)]
                t = got.get((dr, df, int(x[2], 16) & 0x7ff))
                if t is None:
                    return None
                if dr == r:
                    exp.append(dict(rad=r, noc=p["noc"], src=p["node"], dst=q["node"], w=p["w"], t_init=ps / 1000.0, t_recv=t, fl=noc.flits(case["v"], p["w"])))
                else:
                    a, b = case["rads"][r], case["rads"][dr]
                    exp.append(dict(rad=r, noc=0, src=p["node"], dst=a["portal"], w=p["w"], t_init=ps / 1000.0, t_recv=None, fl=None))
                    exp.append(dict(rad=dr, noc=0, src=b["portal"], dst=q["node"], w=PW, t_init=None, t_recv=t, fl=None))
        return exp

    def expect_mm(self, case, g):
        v = case["v"]
        rd = case["rads"][0]
        pid, port = noc.ids(case)
        got = {}
        for (i, ch), l in g.mrec.items():
            for x in l:
                key = (ch, int(x[2], 16) & 0x7ff)
                if key in got:
                    return None
                got[key] = (x[0] / 1000.0, i)
        rev = {i: k for k, i in pid.items()}
        exp = []
        for full, qs in case["q"].items():
            p = port[(0, full)]
            i = pid[(0, full)]
            wdst = []
            for it in qs.get("AW", []):
                wdst += [int(it[3], 16) >> (64 - mm.NODEW[v])] * (it[4] + 1)
            for ch in mm.CH:
                for ps, k in g.macc.get((i, ch), []):
                    it = qs[ch][k]
                    num = int(it[2], 16) & 0x7ff
                    if ch in ("AR", "AW"):
                        dn = int(it[3], 16) >> (64 - mm.NODEW[v])
                    elif ch == "W":
                        dn = wdst[k]
                    else:
                        dn = int(it[2], 16) >> (64 - mm.NODEW[v])
                    if (ch, num) not in got:
                        return None
                    t, di = got[(ch, num)]
                    q = port[rev[di]]
                    exp.append(dict(rad=0, noc=p["noc"], src=p["node"], dst=dn, w=p["w"], t_init=ps / 1000.0, t_hand=t, t_recv=None, fl=None,
                                    per=rd["mclk"][q["m"]["mc"]], ready=not q["p"].get("mready", {}).get(ch)))
        return exp

    def match(self, case, rows, exp, vs):
        """Pair records with transfers: all records of a source node are
        numbered in the order of their initiation."""
        out = []
        multi = len(case["rads"]) > 1
        key = (lambda x: (x["noc"], x["src"], x["dst"], x["w"])) if multi else (lambda x: (x["noc"], x["src"]))
        a, b = collections.defaultdict(list), collections.defaultdict(list)
        for x in rows:
            a[key(x)].append(x)
        for x in exp:
            b[key(x)].append(x)
        for k in sorted(set(a) | set(b)):
            if len(a[k]) != len(b[k]):
                vs.append(V("count", "%d records from node %d of network %d%s, which sent %d transfers" % (len(a[k]), k[1], k[0], (" to node %d of width %d" % k[2:]) if multi else "", len(b[k]))))
                continue
            if multi:
                # devices are not told apart: the known times must be there, no more
                for f, e in (("t_init", "t_init"), ("t_receive", "t_recv")):
                    have = sorted(x[f] for x in a[k])
                    for t in sorted(x[e] for x in b[k] if x[e] is not None):
                        j = [i for i, h in enumerate(have) if near(h, t)]
                        if not j:
                            vs.append(V(f, "a transfer from node %d to node %d has %s %.3f ns, no record has it" % (k[1], k[2], f, t)))
                            break
                        have.pop(j[0])
                out += [(x, None) for x in a[k]]
            else:
                out += list(zip(sorted(a[k], key=lambda x: x["id"]), sorted(b[k], key=lambda x: x["t_init"])))
        return out

    def hops(self, case, n, s, d):
        k = n["topo"]["k"]
        t = 1
        while s or d:
            x = abs(s % k - d % k)
            t += min(x, k - x) if n["topology"] == "torus" else x
            s, d = s // k, d // k
        return t

    def judge_row(self, case, r, e, vs):
        n = case["rads"][e["rad"] if e else 0]["nocs"][r["noc"]]
        name = "record of a transfer %d -> %d (network %d, id %d)" % (r["src"], r["dst"], r["noc"], r["id"])
        if e:
            for f in ("dst", "w"):
                if r[f] != e[f]:
                    vs.append(V({"dst": "dest", "w": "width"}[f], "%s has %s %d, is %d" % (name, f, r[f], e[f])))
            if not near(r["t_init"], e["t_init"]):
                vs.append(V("t_init", "%s: initiated at %s ns, was at %.3f" % (name, r["t_init"], e["t_init"])))
            if e["t_recv"] is not None:
                if not near(r["t_receive"], e["t_recv"]):
                    vs.append(V("t_receive", "%s: received at %s ns, was at %.3f" % (name, r["t_receive"], e["t_recv"])))
                if not near(r["latency"], e["t_recv"] - e["t_init"]):
                    vs.append(V("latency", "%s: latency %s ns, is %.3f" % (name, r["latency"], e["t_recv"] - e["t_init"])))
            if "t_hand" in e:
                if r["t_receive"] > e["t_hand"] * 1.00001 + 1e-5 or r["latency"] > (e["t_hand"] - e["t_init"]) * 1.00001 + 1e-5:
                    vs.append(V("t_receive", "%s: received at %s ns, the module took it at %.3f" % (name, r["t_receive"], e["t_hand"])))
                elif e["ready"] and not near(r["t_receive"], e["t_hand"] - e["per"]):
                    vs.append(V("t_receive", "%s: presented at %s ns, the module took it at %.3f at a clock of %s ns" % (name, r["t_receive"], e["t_hand"], e["per"])))
        want = self.hops(case, n, r["src"], r["dst"])
        if r["hops"] != want:
            vs.append(V("hops", "%s: %d hops, there are %d routers on the way" % (name, r["hops"], want)))
        if not near(r["latency"], r["t_receive"] - r["t_init"], 1.2e-5 * r["t_receive"]):
            vs.append(V("latency", "%s: latency %s ns between %s and %s" % (name, r["latency"], r["t_init"], r["t_receive"])))
        seq = ("t_init", "t_inject", "t_eject", "t_depacket", "t_receive")
        for a, b in list(zip(seq, seq[1:])) + [("t_init", "t_packet")] + ([("t_packet", "t_eject")] if case["kind"] != "mm" else []):
            if r[a] > r[b] and not near(r[a], r[b]):
                vs.append(V("causal", "%s: %s %s ns is after %s %s ns" % (name, a, r[a], b, r[b])))
        fl = e["fl"] if e and e["fl"] else 1
        least = (r["hops"] + fl - 1) * n["clk"]
        if len(case["rads"]) == 1 and r["t_eject"] - r["t_inject"] < least * 0.9999 - 1.2e-5 * r["t_eject"]:
            vs.append(V("causal", "%s: %d flits took %s ns over %d routers of %s ns" % (name, fl, r["t_eject"] - r["t_inject"], r["hops"], n["clk"])))
        for f, clk in (("t_inject", [n["clk"]]), ("t_eject", [n["clk"]])):
            if len(case["rads"]) == 1:
                q = r[f] / clk[0]
                if abs(q - round(q)) * clk[0] > 6e-6 * r[f] + 2e-3:
                    vs.append(V("edge", "%s: %s %s ns is no edge of the network clock of %s ns" % (name, f, r[f], clk[0])))

    def judge_trace(self, case, wd, pairs, vs):
        by = collections.defaultdict(lambda: collections.defaultdict(list))
        try:
            with open(wd + "/ftrace.csv") as f:
                next(f)
                for l in f:
                    t = l.split(",")
                    if len(t) != 6:
                        vs.append(V("trace", "flit trace line %r" % l))
                        return
                    if int(t[5]) == 1:
                        by[int(t[3])][(int(t[1]), int(t[2]))].append(float(t[0]))
        except (OSError, StopIteration):
            if pairs:
                vs.append(V("trace", "no flit trace"))
            return
        for r, e in pairs:
            links = by.get(r["id"], {})
            n = case["rads"][0]["nocs"][r["noc"]]
            name = "trace of the transfer %d -> %d (network %d, id %d)" % (r["src"], r["dst"], r["noc"], r["id"])
            # the path: in from the source, out at the destination
            at, path = -1, []
            nxt = {a: b for a, b in links}
            cnt = {len(x) for x in links.values()}
            while at in nxt and len(path) <= len(links):
                at = nxt[at]
                path.append(at)
                if at == -1:
                    break
            if len(cnt) != 1 or not path or path[-1] != -1 or len(path) != len(links) or path[0] != r["src"] or path[-2:-1] != [r["dst"]]:
                vs.append(V("trace", "%s shows links %s" % (name, {k: len(x) for k, x in links.items()})))
                continue
            if e and e["fl"] and cnt != {e["fl"]}:
                vs.append(V("trace", "%s shows %s flits of %d" % (name, cnt, e["fl"])))
            if len(path) - 1 != r["hops"]:
                vs.append(V("hops", "%s passes %d routers, recorded %d" % (name, len(path) - 1, r["hops"])))
            t0, t1 = min(links[(-1, r["src"])]), max(links[(r["dst"], -1)])
            tol = 1.2e-5 * t1 + 1e-3
            d0, d1 = (t0 - r["t_inject"]) / n["clk"], (r["t_eject"] - t1) / n["clk"]
            if d0 < -tol or d0 > 2 + tol:
                vs.append(V("t_inject", "%s: on the first link at %s ns, recorded as injected at %s" % (name, t0, r["t_inject"])))
            if d1 < -tol:
                vs.append(V("t_eject", "%s: on the last link at %s ns, recorded as ejected at %s" % (name, t1, r["t_eject"])))

    def judge_flows(self, case, wd, exp, vs):
        period = case["driver"] / 1e9
        try:
            agg = collections.defaultdict(list)
            for l in open(wd + "/flows.bw"):
                agg[int(l.split()[0])].append(float(l.split()[1]))
        except OSError:
            vs.append(V("flows", "no traffic flows"))
            return
        for r, rd in enumerate(case["rads"]):
            names = collections.defaultdict(set)
            for name, nid, node, _ in noc.place_lines(rd):
                names[(nid, node)].add(name.split(".")[0])
            for nid, n in enumerate(rd["nocs"]):
                bits = collections.Counter()
                for e in exp:
                    if e["noc"] == nid and e["rad"] == r:
                        bits[(e["src"], e["dst"])] += e["w"]
                want = sorted((min(names[(nid, s)]), min(names[(nid, d)]), b / (case["flows"] * period)) for (s, d), b in bits.items())
                try:
                    txt = open(wd + "/flows_rad%d_noc%d.xml" % (r, nid)).read()
                except OSError:
                    vs.append(V("flows", "no traffic flows of network %d" % nid))
                    continue
                got = sorted((a, b, float(c)) for a, b, c in re.findall(r'<single_flow src="\.\*noc_router_(.*?)\.\*" dst="\.\*noc_router_(.*?)\.\*" bandwidth="(.*?)"/>', txt))
                if len(got) != len(want) or any(x[:2] != y[:2] or not near(x[2], y[2]) for x, y in zip(got, want)):
                    bad = [(x, y) for x, y in zip(got, want) if x[:2] != y[:2] or not near(x[2], y[2])]
                    vs.append(V("flows", "device %d network %d: %d flows (%d expected), (written, true): %s" % (r, nid, len(got), len(want), bad[:2])))
                w = sum((self.hops(case, n, s, d) - 1) * b / (case["flows"] * period) for (s, d), b in bits.items())
                h = agg[r][nid] if nid < len(agg[r]) else None
                if h is None or abs(h - w) > 1e-6 * max(w, 1):
                    vs.append(V("aggregate", "device %d network %d: aggregate bandwidth %s, is %s" % (r, nid, h, w)))

    def shrink(self, case):
        s = {"axis": noc.shrink_axis, "mm": mm.shrink, "multi": r02.CHECK.shrink}[case["kind"]]
        for c in s(case):
            c.update({k: case[k] for k in ("kind", "stats", "flows", "ftrace")})
            yield c


CHECK = T01()
