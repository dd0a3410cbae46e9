"""Memory-mapped scenarios: generation, judgement, shrinking."""
import collections, json
import core, noc
from core import V

CH = ("AR", "AW", "W", "R", "B")
NODEW = {"a": 4, "b": 5, "c": 2, "m": 4}


def mmflits(v, dataw):
    """Upper bound on the flits of any transfer of a port."""
    p = noc.W[v]["payload"]
    return max(-(-(dataw + 2 + 64 + 1) // p), -(-(64 + 13 + 64 + 3) // p))


def addr(v, node, rest):
    w = NODEW[v]
    return "%x" % ((node << (64 - w)) | (rest & ((1 << (64 - w)) - 1)))


def gen_mm(rng, v=None, big=False, legal_ratio=False):
    v = v or rng.choice(["a", "a", "b", "c"])
    n0 = noc.rnd_noc(rng, v)
    nn = rng.choice([1, 1, 1, 2])
    nocs = [n0]
    for _ in range(nn - 1):
        n1 = noc.rnd_noc(rng, v, dims=n0["topo"]["k"], topo=n0["topology"])
        n1["vcs"], n1["cls"] = n0["vcs"], n0["cls"]
        nocs.append(n1)
    for n in nocs:
        n["clk"] = noc.rnd_period(rng)
        n["obuf"] = rng.choice([1, 2, 3])
    nodes = n0["nodes"]
    style = rng.choice(["fast", "fast", "any"])
    aclk = [noc.rnd_period(rng) for _ in range(rng.randint(1, 2))]
    mclk = []
    for _ in range(rng.randint(1, 3)):
        if style == "fast":
            # module clocks are multiples of an adapter clock
            mclk.append(rng.choice(aclk) * rng.choice([1, 2, 4, 4, 8, 12]))
        else:
            mclk.append(noc.rnd_period(rng))
    mclk = [round(x, 3) for x in mclk]
    mods = []
    used = set()
    for i in range(rng.randint(2, 6)):
        kinds = ["mm"] if i == 0 else ["ms"] if i == 1 else [rng.choice(["mm", "ms"]) for _ in range(rng.randint(1, 2))]
        clk = (rng.randrange(len(aclk)), rng.randrange(len(mclk)))
        ports = []
        for j, k in enumerate(kinds):
            free = [(a, b) for a in range(nn) for b in range(nodes) if (a, b) not in used and not any((x, b) in used for x in range(nn))]
            if i < 2:
                free = [f for f in free if f[0] == 0]
            if not free:
                break
            s = rng.choice(free)
            used.add(s)
            m = noc.W[v]["axi"]
            p = dict(n="p%d" % j, k=k, w=rng.choice([m, m, 8, 32, 64, 128, rng.randint(1, m)]), noc=s[0], node=s[1])
            p["w"] = min(p["w"], m)
            p["mready"] = {c: noc.rnd_runs(rng) for c in (("R", "B") if k == "mm" else ("AR", "AW", "W"))}
            p["mready"] = {c: r for c, r in p["mready"].items() if r}
            ports.append(p)
        if ports:
            mods.append(dict(name="m%d" % i, ac=clk[0], mc=clk[1], ports=ports))
    maxfl = max(mmflits(v, p["w"]) for m in mods for p in m["ports"])
    for n in nocs:
        n["vc_buf"] = maxfl + rng.choice([0, 0, 1, 3, 8, 16])
        n["fifo"] = maxfl + rng.choice([0, 0, 1, 2, 10, 16])
    case = dict(v=v, rads=[dict(nocs=nocs, aclk=aclk, mclk=mclk, mods=mods)], driver=5.0, q={})
    num = 0
    total = rng.choice([rng.randint(2, 10), rng.randint(5, 60), 60]) * (4 if big else 1)
    pend = collections.Counter()
    allp = [(m, p) for m in mods for p in m["ports"]]
    fast = rng.random() < 0.5
    for _ in range(total):
        m, p = rng.choice(allp)
        full = m["name"] + "." + p["n"]
        peers = [q for _, q in allp if q["noc"] == p["noc"] and q["k"] != p["k"]]
        if not peers:
            continue
        q = rng.choice(peers)
        gap = lambda: 0 if fast or rng.random() < 0.5 else rng.choice([1, 2, rng.randint(0, 20), rng.randint(0, 120)])
        user = lambda node=None: "%x" % ((int(noc.hexdata(rng, 64), 16) >> 11 << 11) | num) if node is None else addr(v, node, (int(noc.hexdata(rng, 60), 16) >> 11 << 11) | num)
        rid = rng.randrange(256)
        qs = case["q"].setdefault(full, {})
        if num > 2000:
            break
        if p["k"] == "mm":
            c = rng.choice(["AR", "AW"])
            ln = rng.choice([0, 0, 1, 2, 3, rng.randint(0, 7), 255]) if c == "AR" else rng.choice([0, 0, 1, 2, 3])
            qs.setdefault(c, []).append([gap(), rid, user(), addr(v, q["node"], int(noc.hexdata(rng, 60), 16)), ln, rng.randrange(8), rng.randrange(4)])
            num += 1
            if c == "AW":
                for b in range(ln + 1):
                    qs.setdefault("W", []).append([gap(), rid, user(), int(b == ln), 0, noc.hexdata(rng, noc.W[v]["axi"])])
                    num += 1
        else:
            c = rng.choice(["R", "R", "B"])
            if c == "R":
                qs.setdefault("R", []).append([gap(), rid, user(q["node"]), rng.randrange(2), rng.randrange(4), noc.hexdata(rng, noc.W[v]["axi"])])
            else:
                qs.setdefault("B", []).append([gap(), rid, user(q["node"]), 0, rng.randrange(4)])
            num += 1
    return case


def ratio_class(case):
    """Smallest module/adapter clock ratio and whether N <= ratio everywhere."""
    rd = case["rads"][0]
    ok = True
    for m in rd["mods"]:
        r = rd["mclk"][m["mc"]] / rd["aclk"][m["ac"]]
        for p in m["ports"]:
            if mmflits(case["v"], p["w"]) > r:
                ok = False
    return ok


def finish(case):
    rd = case["rads"][0]
    rd["lines"] = []
    want = 0
    maxgap = 0
    for full, qs in case["q"].items():
        for ch, l in qs.items():
            for it in l:
                after = "-1 -1"
                if ch in ("AR", "AW"):
                    g, i, u, a, ln, sz, bu = it
                    rd["lines"].append("m %s %s %d %d %s %s %s %d %d %d" % (full, ch, g, i, u, after, a, ln, sz, bu))
                elif ch == "B":
                    g, i, u, _, resp = it
                    rd["lines"].append("m %s %s %d %d %s %s 0 %d" % (full, ch, g, i, u, after, resp))
                else:
                    g, i, u, last, resp, d = it
                    rd["lines"].append("m %s %s %d %d %s %s %d %d %s" % (full, ch, g, i, u, after, last, resp, d))
                want += 2
                maxgap = max(maxgap, it[0])
    slow = max([1.0] + rd["mclk"] + rd["aclk"] + [n["clk"] for n in rd["nocs"]])
    runs = [x for m in rd["mods"] for p in m["ports"] for r in p.get("mready", {}).values() for x in r]
    case["want"] = want
    case["stallns"] = int(slow * (4000 + 4 * maxgap + 60 * max(runs + [1])) + 2000)
    case["maxns"] = int(case["stallns"] * 20 + slow * want * 600)
    case["drainns"] = int(slow * 300)
    return case


def judge(case, g):
    v = case["v"]
    rd = case["rads"][0]
    pid, port = noc.ids(case)
    rev = {i: k[1] for k, i in pid.items()}
    out = []
    node = {(p["noc"], p["node"]): pid[(0, m["name"] + "." + p["n"])] for m in rd["mods"] for p in m["ports"]}
    exp = {}          # (ch, number) -> (recv id, fields, sender, order)
    order = collections.defaultdict(list)
    ends = g.end[0]
    for full, qs in case["q"].items():
        i = pid[(0, full)]
        pt = port[(0, full)]
        lastdst = None
        wdst = []
        for it in qs.get("AW", []):
            wdst += [int(it[3], 16) >> (64 - NODEW[v])] * (it[4] + 1)
        for ch in CH:
            acc = [x[1] for x in g.macc.get((i, ch), [])]
            l = qs.get(ch, [])
            if acc != list(range(len(acc))):
                out.append(V("harness", "accept order"))
            if ends == "stall" and len(acc) < len(l):
                out.append(V("not-accepted", "%s %s: %d of %d transfers accepted, then nothing moved" % (full, ch, len(acc), len(l))))
            for k in acc:
                it = l[k]
                num = int(it[2], 16) & 0x7ff
                if ch in ("AR", "AW"):
                    dn = int(it[3], 16) >> (64 - NODEW[v])
                    f = (str(it[1]), it[2], it[3], str(it[4]), str(it[5]), str(it[6]))
                elif ch == "W":
                    dn = wdst[k]
                    f = (str(it[1]), it[2], str(it[3]), noc.mask(it[5], pt["w"]))
                elif ch == "R":
                    dn = int(it[2], 16) >> (64 - NODEW[v])
                    f = (str(it[1]), it[2], str(it[4]), str(it[3]), noc.mask(it[5], pt["w"]))
                else:
                    dn = int(it[2], 16) >> (64 - NODEW[v])
                    f = (str(it[1]), it[2], str(it[4]))
                f = tuple(x if j not in (1,) else (x.lstrip("0") or "0") for j, x in enumerate(f))
                exp[(ch, num)] = dict(dst=node[(pt["noc"], dn)], f=f, src=i, k=k, w=pt["w"], got=0)
    seqs = collections.defaultdict(list)
    for (i, ch), l in g.mrec.items():
        for x in l:
            ps, f = x[0], list(x[1:])
            num = int(f[1], 16) & 0x7ff
            e = exp.get((ch, num))
            if e is None:
                out.append(V("spurious", "%s received a %s transfer at %d ps that nobody sent or that was altered beyond recognition: %s" % (rev[i], ch, ps, f)))
                continue
            if ch in ("W", "R"):
                f[-1] = noc.mask(f[-1], e["w"])
            if ch in ("AR", "AW"):
                ef = list(e["f"])
                ef[2] = ef[2].lstrip("0") or "0"
            else:
                ef = list(e["f"])
            if f != ef:
                out.append(V("altered", "%s %s of %s: sent %s, got %s" % (rev[i], ch, rev[e["src"]], ef, f)))
            if e["dst"] != i:
                out.append(V("misrouted", "%s transfer of %s for %s came out at %s" % (ch, rev[e["src"]], rev[e["dst"]], rev[i])))
            e["got"] += 1
            if e["got"] == 2:
                out.append(V("duplicate", "%s received %s transfer %s twice" % (rev[i], ch, f)))
            seqs[(e["src"], i, ch)].append(e["k"])
    if noc.ordered(case):
        for k, l in seqs.items():
            if l != sorted(l):
                out.append(V("reordered", "%s -> %s channel %s: order %s" % (rev[k[0]], rev[k[1]], k[2], l[:40])))
    if ends in ("stall", "done"):
        lost = [(ch, e) for (ch, n), e in exp.items() if not e["got"]]
        if lost:
            out.append(V("lost", "%d accepted transfers never arrived (end %s), first: %s of %s %s" % (len(lost), ends, lost[0][0], rev[lost[0][1]["src"]], lost[0][1]["f"])))
    if g.hold:
        out.append(V("not-held", "; ".join(g.hold[:3])))
    return out


def shrink(case):
    cp = lambda: json.loads(json.dumps(case))
    rd = case["rads"][0]

    def clean(c):
        c["q"] = {f: {k: l for k, l in qs.items() if l} for f, qs in c["q"].items()}
        c["q"] = {f: qs for f, qs in c["q"].items() if qs}
        if not c["q"]:
            return None
        return finish(c)
    # drop whole queues
    for f in list(case["q"]):
        c = cp()
        del c["q"][f]
        c = clean(c)
        if c:
            yield c
        for chs in (("AR",), ("AW", "W"), ("R",), ("B",)):
            if chs[0] in case["q"][f]:
                c = cp()
                for ch in chs:
                    c["q"][f].pop(ch, None)
                c = clean(c)
                if c:
                    yield c
    for f, qs in case["q"].items():
        for ch in ("AR", "R", "B"):
            for part in core._ddmin(qs.get(ch, [])):
                c = cp()
                c["q"][f][ch] = part
                c = clean(c)
                if c:
                    yield c
        if "AW" in qs:
            pos = []
            k = 0
            for it in qs["AW"]:
                pos.append((k, k + it[4] + 1))
                k += it[4] + 1
            for part in core._ddmin(list(range(len(qs["AW"])))):
                c = cp()
                c["q"][f]["AW"] = [qs["AW"][j] for j in part]
                c["q"][f]["W"] = [x for j in part for x in qs["W"][pos[j][0]:pos[j][1]]]
                c = clean(c)
                if c:
                    yield c
        for ch, l in qs.items():
            for j, it in enumerate(l):
                if it[0]:
                    c = cp()
                    c["q"][f][ch][j][0] = 0
                    yield finish(c)
    used = set(case["q"])
    tgt = set()
    for f, qs in case["q"].items():
        for ch, l in qs.items():
            for it in l:
                a = it[3] if ch in ("AR", "AW") else it[2] if ch in ("R", "B") else None
                if a:
                    tgt.add(int(a, 16) >> (64 - NODEW[case["v"]]))
    for i, m in enumerate(rd["mods"]):
        for j, p in enumerate(m["ports"]):
            full = m["name"] + "." + p["n"]
            if full not in used and p["node"] not in tgt:
                c = cp()
                del c["rads"][0]["mods"][i]["ports"][j]
                if not c["rads"][0]["mods"][i]["ports"]:
                    del c["rads"][0]["mods"][i]
                yield finish(c)
            for ch in p.get("mready", {}):
                c = cp()
                del c["rads"][0]["mods"][i]["ports"][j]["mready"][ch]
                yield finish(c)
    base = dict(out_buf=8, vca="islip", swa="islip", iters=1, wtc=0, cd=1, rd=1, obuf=2, clk=1.0)
    for i, n in enumerate(rd["nocs"]):
        for k, val in base.items():
            if n[k] != val:
                c = cp()
                c["rads"][0]["nocs"][i][k] = val
                yield finish(c)
    for lst in ("aclk", "mclk"):
        for i, x in enumerate(rd[lst]):
            for val in (1.0, 2.0, 4.0):
                if x != val and x not in (1.0, 2.0, 4.0):
                    c = cp()
                    c["rads"][0][lst][i] = val
                    yield finish(c)
