"""Scenarios for the memory controller: generation, judgement, shrinking."""
import collections, json, os
import core, dram, noc
from core import V

NODEW = {"a": 4, "b": 5}


def gen_dcfg(rng, maxbits, nice=True):
    for _ in range(200):
        cfg = dram.gen_cfg(rng, name=rng.choice(dram.stock(True)) if dram.stock(True) and rng.random() < 0.07 else None)
        y, st = cfg["system"], cfg["dram_structure"]
        y["channels"] = str(rng.choice([1, 1, 2, 2, 4]))
        g = dram.Geo(cfg)
        if g.wb * 8 > maxbits:
            # a narrower bus of the same devices
            bus = maxbits // g.BL
            if bus < g.dw or bus < 8 or bus % g.dw:
                continue
            y["bus_width"] = str(bus)
            y["channel_size"] = "0"
            m = dram.Geo(cfg).mpr
            y["channel_size"] = str(max(1, m) * rng.choice([1, 1, 2, 4]))
            g = dram.Geo(cfg)
        if not g.pow2() or g.wb * 8 > maxbits or g.mpr < 1 or g.wb < 1:
            continue
        cfg["timing"]["tCK"] = rng.choice(["1", "1.25", "0.5", "2", "0.75"])
        tck = float(cfg["timing"]["tCK"])
        if 2.0 * (g.BL * tck / 2) / tck != g.BL:
            continue
        return cfg, g.BL * tck / 2
    return gen_dcfg(rng, maxbits)


def gen(rng, tier):
    v = rng.choice(["a", "a", "b"])
    maxbits = noc.W[v]["axi"]
    cfg, per = gen_dcfg(rng, maxbits)
    g = dram.Geo(cfg)
    mode = "direct" if rng.random() < 0.6 else "noc"
    case = dict(v=v, mode=mode, cfg=cfg, driver=5.0, q=rng.choice([17, 18, 20, 24, 32, 64, 200]), per=per)
    rd = dict(nocs=[noc.rnd_noc(rng, v, topo="mesh")], aclk=[1.0], mclk=[rng.choice([1.0, 2.0, per, 3.3])], dk=rng.choice([1.0, 2.0, 3.3, per]))
    while mode == "noc" and rd["nocs"][0]["nodes"] <= g.channels:
        rd["nocs"] = [noc.rnd_noc(rng, v, topo="mesh")]
    n = rd["nocs"][0]
    n["vcs"], n["cls"] = 5, [[i, i] for i in range(5)]
    case["rd"] = rd
    ports = []
    if mode == "direct":
        for c in range(g.channels):
            ports.append(dict(n="p%d" % c, ch=[c], write=True, freew=rng.random() < 0.5))
    else:
        nodes = list(range(n["nodes"]))
        rng.shuffle(nodes)
        nch = g.channels
        case["chnode"] = [nodes.pop() for _ in range(nch)]
        k = rng.randint(1, min(3, len(nodes)))
        own = [rng.randrange(k) for _ in range(nch)]
        for i in range(k):
            ports.append(dict(n="p%d" % i, ch=[c for c in range(nch) if own[c] == i], write=True, node=nodes.pop(), freew=False))
        n["clk"] = rng.choice([1.0, 1.25, 2.0])
        n["vc_buf"] = n["fifo"] = 40
        n["obuf"] = 3
        rd["aclk"] = [rng.choice([1.0, 1.25, 2.0])]
    for p in ports:
        p["mready"] = {c: r for c, r in (("R", noc.rnd_runs(rng)), ("B", noc.rnd_runs(rng))) if r}
    case["ports"] = ports
    words = g.words // g.channels
    # addresses: a few words, neighbours, and words that differ in one high bit
    base = [rng.randrange(words) for _ in range(rng.choice([1, 2, 4]))]
    pool = list(base)
    for _ in range(rng.choice([2, 6, 20])):
        b = rng.choice(pool)
        pool.append(rng.choice([(b + 1) % words, b ^ (1 << rng.randrange(max(1, words.bit_length() - 1))), rng.randrange(words),
                                (b + rng.randrange(8)) % words]) % words)
    case["init"] = []
    if rng.random() < 0.4:
        case["init"] = [[c, w, noc.hexdata(rng, g.wb * 8)] for c in range(g.channels) for w in sorted(set(pool)) if rng.random() < 0.5]
    nops = rng.choice([3, 10, 30, 60] + ([150, 300] if tier != "quick" else []))
    maxlen = rng.choice([0, 1, 3, 7, 15, 40])
    fast = rng.random() < 0.5
    size = (g.wb - 1).bit_length()
    ops = []
    pw = rng.choice([0.2, 0.5, 0.8])
    chs = case.get("chnode") or list(range(g.channels))
    for i in range(nops):
        pi = rng.randrange(len(ports))
        p = ports[pi]
        w = rng.random() < pw and bool(p["ch"])
        if mode == "direct":
            ch = p["ch"][0]
        else:
            ch = rng.choice(p["ch"]) if w else rng.randrange(len(chs))
        ln = rng.choice([0, 0, rng.randint(0, maxlen), maxlen])
        sz = size
        if size < 7 and rng.random() < 0.15:
            sz = rng.randint(size, min(7, size + 2))
        if rng.random() < 0.1:
            sz = rng.randint(0, size)
        x = dict(p=pi, w=int(w), ch=ch, word=rng.choice(pool), len=ln, size=sz, hi=rng.getrandbits(60) if rng.random() < 0.3 else 0,
                 g=0 if fast else rng.choice([0, 1, 3, rng.randint(0, 40), rng.randint(0, 400)]), dep=int(not w and rng.random() < 0.4),
                 burst=rng.randrange(4), id=rng.randrange(256))
        if w:
            x["wg"] = 0 if fast else rng.choice([0, 0, 1, rng.randint(0, 20)])
            x["seed"] = rng.getrandbits(30)
        ops.append(x)
    case["ops"] = ops
    case["final"] = int(rng.random() < 0.7)
    return finish(case)


def beats(case, x):
    g = dram.Geo(case["cfg"])
    return max(1, -(-(1 << x["size"]) // g.wb)) * (x["len"] + 1)


def hexof(x, i, bits):
    """Data of beat i of a write: unique within the case, all bits used."""
    import random
    r = random.Random((x["seed"] << 12) + i)
    k = r.randrange(4)
    v = r.getrandbits(bits) if k else (r.getrandbits(bits) & r.getrandbits(bits))
    return "%x" % v


def finish(case):
    """Scenario lines and the plan the judge uses."""
    g = dram.Geo(case["cfg"])
    v, mode, rd = case["v"], case["mode"], dict(case["rd"])
    words = g.words // g.channels
    nw = NODEW[v]
    bits = g.wb * 8
    base = lambda node: (node << (64 - nw)) if mode == "noc" else 0
    ports = case["ports"]
    eps, lines, plan = [], [], []
    nwr = collections.Counter()
    nrd = collections.Counter()
    tag = 0
    want = 0
    used = set()
    allops = list(case["ops"])
    if case["final"]:
        touched = set()
        for x in case["ops"]:
            if x["w"]:
                for b in range(beats(case, x)):
                    touched.add((x["p"], x["ch"], (x["word"] + b) % words))
        for p, c, w in sorted(touched)[:200]:
            allops.append(dict(p=p, w=0, ch=c, word=w, len=0, size=(g.wb - 1).bit_length(), hi=0, g=0, dep=2, burst=1, id=0))
    totw = collections.Counter(x["p"] for x in case["ops"] if x["w"])
    dmap = {}
    for x in allops:
        p = ports[x["p"]]
        nb = beats(case, x)
        own = base(p.get("node", 0))
        user = own | tag
        if mode == "noc":
            a = base(case["chnode"][x["ch"]]) | ((x["word"] * g.wb) | (x["hi"] // (words * g.wb) * (words * g.wb))) & ((1 << (64 - nw)) - 1)
        else:
            a = (x["word"] * g.wb) | (x["hi"] // (words * g.wb) * (words * g.wb))
        nm = "ep%d.%s" % (x["p"], p["n"])
        after = "-1 -1"
        if x["dep"] == 1:
            after = "%d -1" % nwr[x["p"]]
        elif x["dep"] == 2:
            after = "%d -1" % totw[x["p"]]
        rec = dict(p=x["p"], w=x["w"], ch=x["ch"], user="%x" % user, words=[(x["word"] + b) % words for b in range(nb)], tag=tag)
        lines.append("m %s %s %d %d %x %s %x %d %d %d" % (nm, "AW" if x["w"] else "AR", x["g"], x["id"], user, after, a, x["len"], x["size"], x["burst"]))
        if x["w"]:
            rec["data"] = []
            for b in range(nb):
                d = hexof(x, b, bits)
                while (x["ch"], rec["words"][b], d) in used:
                    d = "%x" % ((int(d, 16) + 1) % (1 << bits))
                used.add((x["ch"], rec["words"][b], d))
                rec["data"].append(d)
                lines.append("m %s W %d %d %x -1 -1 %d 0 %s" % (nm, x["wg"] if b else 0, x["id"], user, int(b == nb - 1), d))
            nwr[x["p"]] += 1
            want += nb + 2
        else:
            want += 1 + nb
        plan.append(rec)
        tag += 1
    for i, p in enumerate(ports):
        eps.append(dict(name="ep%d" % i, ac=0, mc=0, ports=[dict(n=p["n"], k="mm", w=bits, f=("u" if mode == "direct" else "") + ("w" if p["freew"] else "") or "-",
                                                                  mready=p["mready"], node=p.get("node", 0), noc=0)]))
    mods = eps + [dict(name="mc", type="mem", dram=0, init="init_0" if case["init"] else "", ac=0, mc=0)]
    rd["mods"] = mods
    rd["dram"] = [dict(clk=case["per"], q=case["q"], cfg="case")]
    rd["lines"] = lines
    if mode == "direct":
        rd["direct"] = rd["dk"]
        rd["links"] = [["ep%d.%s" % (i, p["n"]), "mc", p["ch"][0]] for i, p in enumerate(ports)]
        rd["place"] = []
    else:
        rd["place"] = [["ep%d.%s" % (i, p["n"]), 0, p["node"], "aximm"] for i, p in enumerate(ports)] + \
                      [["mc.mem_channel_%d" % c, 0, nd, "aximm"] for c, nd in enumerate(case["chnode"])]
    case["rads"] = [rd]
    case["plan"] = plan
    case["want"] = want
    case["memclk"] = [1.0]
    case["dstats"] = 1
    slow = max(rd["mclk"] + rd["aclk"] + [rd["nocs"][0]["clk"], rd["dk"]])
    gaps = sum(x["g"] + x.get("wg", 0) * 20 for x in case["ops"])
    runs = [x for p in ports for r in p["mready"].values() for x in r]
    c = 400 + 2 * (g.tRFC + g.tRC + g.tXS + g.tFAW) * 10
    case["stallns"] = int(slow * (c + 1000 + max([0] + [x["g"] for x in case["ops"]]) + 60 * max(runs + [1])))
    case["maxns"] = int(case["stallns"] * 10 + slow * (gaps + want * (200 + 3 * (g.tRC + g.WL + g.tWR)) + 20 * max(runs + [1]) * want))
    case["drainns"] = int(slow * 200)
    return case


def write(case, wd):
    os.makedirs(wd + "/sim/dram/DRAMsim3/configs", exist_ok=True)
    dram.write_ini(case["cfg"], wd + "/sim/dram/DRAMsim3/configs/case.ini")
    g = dram.Geo(case["cfg"])
    if case["init"]:
        for c in range(g.channels):
            with open(wd + "/init_%d.dat" % c, "w") as f:
                for ch, w, d in case["init"]:
                    if ch == c:
                        f.write("%d %s\n" % (w * g.wb, bin(int(d, 16))[2:].zfill(noc.W[case["v"]]["axi"])))
    noc.write(case, wd)
    if case["init"]:
        s = open(wd + "/scenario.txt").read().replace("mod mc mem 0 init_0", "mod mc mem 0 %s/init_0" % wd)
        open(wd + "/scenario.txt", "w").write(s)


def judge(case, r, g, wd):
    geo = dram.Geo(case["cfg"])
    vs = []
    pid, _ = ids(case)
    plan = case["plan"]
    ends = g.end[0]
    per = collections.defaultdict(lambda: dict(AR=[], AW=[]))
    for rec in plan:
        per[rec["p"]]["AW" if rec["w"] else "AR"].append(rec)
    byuser = {rec["user"]: rec for rec in plan}
    written = collections.defaultdict(list)      # (ch, word) -> [(start, end, data)]
    for p, q in per.items():
        i = pid["ep%d.%s" % (p, case["ports"][p]["n"])]
        aw = {k: t for t, k in g.macc.get((i, "AW"), [])}
        w = {k: t for t, k in g.macc.get((i, "W"), [])}
        ar = {k: t for t, k in g.macc.get((i, "AR"), [])}
        if ends == "stall":
            nbw = sum(len(x["words"]) for x in q["AW"])
            if len(aw) < len(q["AW"]) or len(w) < nbw or len(ar) < len(q["AR"]):
                vs.append(V("not-accepted", "port %d: %d of %d write addresses, %d of %d write beats, %d of %d read addresses accepted, then nothing moved" %
                            (p, len(aw), len(q["AW"]), len(w), nbw, len(ar), len(q["AR"]))))
        # answers
        bs = collections.defaultdict(list)
        for x in g.mrec.get((i, "B"), []):
            bs[norm(x[2])].append(x[0])
        rs = collections.defaultdict(list)
        order = collections.defaultdict(list)
        for x in g.mrec.get((i, "R"), []):
            u = norm(x[2])
            rs[u].append((x[0], x[4], x[5]))
            rec = byuser.get(u)
            if rec is None or rec["p"] != p or rec["w"]:
                vs.append(V("spurious-read", "port %d received a read beat with user %s that no read of its carries" % (p, u)))
            else:
                order[rec["ch"]].append(rec["tag"])
        for u in bs:
            rec = byuser.get(u)
            if rec is None or rec["p"] != p or not rec["w"]:
                vs.append(V("spurious-resp", "port %d received a write response with user %s that no write of its carries" % (p, u)))
        for ch, l in order.items():
            want = [rec["tag"] for k, rec in enumerate(q["AR"]) if rec["ch"] == ch and k in ar for _ in rec["words"]]
            if l != want[:len(l)]:
                vs.append(V("read-order", "port %d channel %d: read beats came for requests %s, requested %s" % (p, ch, l[:30], want[:30])))
        k = 0
        for j, rec in enumerate(q["AW"]):
            n = len(rec["words"])
            b = bs.get(rec["user"], [])
            full = j in aw and all(k + z in w for z in range(n))
            if len(b) > 1:
                vs.append(V("resp-twice", "write %s answered %d times" % (rec["user"], len(b))))
            if b and not full:
                vs.append(V("resp-early", "write %s answered before all its beats were accepted" % rec["user"]))
            if full and not b and ends in ("stall", "done"):
                vs.append(V("resp-lost", "write %s of %d words never answered (end %s)" % (rec["user"], n, ends)))
            for z in range(n):
                if k + z in w:
                    written[(rec["ch"], rec["words"][z])].append((w[k + z], b[0] if b else None, rec["data"][z].lstrip("0") or "0"))
            k += n
    init = {(c, x): d.lstrip("0") or "0" for c, x, d in map(tuple, case["init"])}
    for p, q in per.items():
        i = pid["ep%d.%s" % (p, case["ports"][p]["n"])]
        ar = {k: t for t, k in g.macc.get((i, "AR"), [])}
        rs = collections.defaultdict(list)
        for x in g.mrec.get((i, "R"), []):
            rs[norm(x[2])].append((x[0], x[4], x[5]))
        for j, rec in enumerate(q["AR"]):
            l = rs.get(rec["user"], [])
            n = len(rec["words"])
            if j in ar and len(l) < n and ends in ("stall", "done"):
                vs.append(V("read-lost", "read %s of %d words got %d beats (end %s)" % (rec["user"], n, len(l), ends)))
            if len(l) > n:
                vs.append(V("read-extra", "read %s of %d words got %d beats" % (rec["user"], n, len(l))))
            for z, (ps, last, d) in enumerate(l[:n]):
                if (last == "1") != (z == n - 1):
                    vs.append(V("last", "read %s: beat %d of %d has last %s" % (rec["user"], z, n, last)))
                key = (rec["ch"], rec["words"][z])
                ws = written.get(key, [])
                lo = -1
                for m, (s, e, _) in enumerate(ws):
                    if e is not None and e <= ar.get(j, 0):
                        lo = m
                ok = set(x[2] for m, x in enumerate(ws) if m >= lo and m >= 0 and x[0] < ps)
                if lo < 0:
                    ok.add(init.get(key, "0"))
                if noc.mask(d, geo.wb * 8) not in ok:
                    hist = [x[2] for x in ws].index(noc.mask(d, geo.wb * 8)) if noc.mask(d, geo.wb * 8) in [x[2] for x in ws] else None
                    vs.append(V("wrong-data", "read %s beat %d of channel %d word 0x%x accepted at %s ps returned %s; last answered write is number %d of %d to the word%s" %
                                (rec["user"], z, rec["ch"], rec["words"][z], ar.get(j), d, lo + 1, len(ws),
                                 "" if hist is None else ", value is that of number %d" % (hist + 1))))
        if len(vs) > 6:
            break
    if g.hold:
        vs.append(V("not-held", "; ".join(g.hold[:2])))
    if not vs and ends == "done":
        try:
            st = json.load(open(wd + "/logs/dramsim3_0.json"))
        except (OSError, ValueError) as e:
            return vs + [V("stats-file", "DRAM statistics: %s" % e)]
        rw = collections.Counter()
        for rec in plan:
            rw[(rec["ch"], rec["w"])] += len(rec["words"])
        for c in range(geo.channels):
            s = st.get(str(c), {})
            got = (s.get("num_reads_done"), s.get("num_writes_done"))
            if got != (rw[(c, 0)], rw[(c, 1)]):
                vs.append(V("channel", "channel %d served %s reads and %s writes, asked for %d and %d" % (c, got[0], got[1], rw[(c, 0)], rw[(c, 1)])))
    return vs[:6]


def norm(u):
    return u.lstrip("0") or "0"


def ids(case):
    d, k = {}, 0
    for m in case["rads"][0]["mods"]:
        for p in m.get("ports", []):
            d[m["name"] + "." + p["n"]] = k
            k += 1
    return d, None


def shrink(case):
    cp = lambda: {k: json.loads(json.dumps(v)) for k, v in case.items() if k not in ("rads", "plan")}
    for part in core._ddmin(case["ops"]):
        c = cp()
        c["ops"] = part
        yield finish(c)
    if case["final"]:
        c = cp()
        c["final"] = 0
        yield finish(c)
    if case["init"]:
        c = cp()
        c["init"] = []
        yield finish(c)
    for i, p in enumerate(case["ports"]):
        for ch in list(p["mready"]):
            c = cp()
            del c["ports"][i]["mready"][ch]
            yield finish(c)
        if p["freew"]:
            c = cp()
            c["ports"][i]["freew"] = False
            yield finish(c)
    for i, x in enumerate(case["ops"]):
        for k, v in (("len", 0), ("g", 0), ("wg", 0), ("hi", 0), ("dep", 0), ("id", 0), ("burst", 1)):
            if x.get(k, v) != v:
                c = cp()
                c["ops"][i][k] = v
                yield finish(c)
