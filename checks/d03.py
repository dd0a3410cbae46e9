import os
import dram
from core import Check, Outcome, V, h, run_proc


class D03(Check):
    prop = "D03"
    targets = ["dramh"]
    technique = "generated and stock device configurations, reference decoding from the mapping text, exhaustive collision search on small devices"
    rule = "at least 100 addresses decoded on a device with at least three fields wider than zero bits"
    quick_n = 1500
    thorough_n = 30000
    assumptions = ["channels, ranks, bank groups, banks, rows and columns are powers of two (the mapping is made of bit fields)"]

    def gen(self, rng, i, tier):
        for _ in range(50):
            cfg = dram.gen_cfg(rng, perturb=rng.random() < 0.8, name=rng.choice(dram.stock(True)) if dram.stock(True) and rng.random() < 0.08 else None)
            g = dram.Geo(cfg)
            if g.pow2():
                break
        y = cfg["system"]
        if rng.random() < 0.3:
            # wider and narrower buses and other channel counts
            dw = int(cfg["dram_structure"]["device_width"])
            y["bus_width"] = str(dw * rng.choice([1, 2, 4, 8]))
            if int(y["bus_width"]) < 8:
                y["bus_width"] = "8"
            y["channels"] = str(rng.choice([1, 2, 4, 8, 16, 32]))
            y["channel_size"] = "0"
            m = dram.Geo(cfg).mpr
            y["channel_size"] = str(max(1, m) * rng.choice([1, 2, 4, 8]))
        g = dram.Geo(cfg)
        cap = g.words * g.wb
        a = [0, cap - 1, cap - g.wb, cap // 2]
        a += [1 << b for b in range(0, cap.bit_length() - 1)]
        a += [cap - 1 - (1 << b) for b in range(0, cap.bit_length() - 1)]
        while len(a) < 200:
            k = rng.random()
            if k < 0.5:
                a.append(rng.randrange(cap))
            elif k < 0.7:
                a.append((rng.choice(a) ^ (1 << rng.randrange(cap.bit_length() - 1))) % cap)
            elif k < 0.9:
                b = rng.randrange(cap.bit_length() - 1)
                a.append(max(0, (rng.randrange(cap) >> b << b) - rng.randrange(2)))
            else:
                a.append(rng.randrange(1 << rng.randrange(1, cap.bit_length())))
        return {"cfg": cfg, "addrs": a}

    def execute(self, case, wd):
        g = dram.Geo(case["cfg"])
        vs, tags = [], {}
        if not g.pow2() or g.mpr < 1:
            return Outcome([], False, "np2", evals=1, tags={"not a power of two": 1})
        dram.write_ini(case["cfg"], wd + "/c.ini")
        with open(wd + "/a.txt", "w") as f:
            f.write("\n".join("%x" % a for a in case["addrs"]) + "\n")
        p = run_proc([self.bin["dramh"], "geo", wd + "/c.ini", wd, wd + "/a.txt"], cwd=wd, cpu=60)
        got = [x.split() for x in p.out.splitlines() if x.startswith("@D ")]
        if len(got) != len(case["addrs"]):
            return Outcome([V("crash", "decoding stopped: rc %s %s" % (p.rc, p.err[-200:]), "crash")], True, "c")
        for line in p.out.splitlines():
            if line.startswith("@G "):
                want = [g.channels, g.ranks, g.bg, g.ba, g.rows, g.cols, g.BL, g.bus]
                have = list(map(int, line.split()[1:]))
                if have != want:
                    vs.append(V("geometry", "channels, ranks, bank groups, banks, rows, columns, burst, bus are %s, the configuration says %s" % (have, want), "geometry"))
        for a, x in zip(case["addrs"], got):
            d = tuple(map(int, x[2:]))
            w = g.decode(a)
            if d != w:
                vs.append(V("decode", "address 0x%x of mapping %s decodes to (ch,ra,bg,ba,ro,co) %s instead of %s" % (a, g.mapping, d, w), "decode"))
                if len(vs) > 5:
                    break
        ev = len(got)
        lim = 1 << (22 if os.environ.get("VERIF_TIER", "quick") == "quick" else 25)
        if g.words <= lim:
            q = run_proc([self.bin["dramh"], "enum", wd + "/c.ini", wd, str(lim)], cwd=wd, cpu=120)
            fin = [x for x in q.out.splitlines() if x.startswith("@F ")]
            if not fin:
                vs.append(V("crash", "enumeration stopped: rc %s %s" % (q.rc, q.err[-200:]), "crash"))
            for x in q.out.splitlines():
                y = x.split()
                if x.startswith("@N ") and [int(y[1]), int(y[2])] != [g.words, g.wb]:
                    vs.append(V("capacity", "%s words of %s bytes instead of %d of %d" % (y[1], y[2], g.words, g.wb), "capacity"))
                elif x.startswith("@O "):
                    vs.append(V("range", "address 0x%s decodes outside the device: %s" % (y[1], y[2:]), "range"))
                elif x.startswith("@U "):
                    vs.append(V("collision", "address 0x%s decodes to coordinates another address already has" % y[1], "collision"))
                elif x.startswith("@W "):
                    vs.append(V("word", "bytes of the word at 0x%s decode differently" % y[1], "word"))
            ev += g.words
            tags["every word of the device"] = 1
        wide = sum(1 for v in g.widths.values() if v)
        tags["mapping " + ("stock" if g.mapping in STOCKMAP else "generated")] = 1
        tags["protocol " + g.protocol] = 1
        return Outcome(vs, len(got) >= 100 and wide >= 3, h([case["cfg"]["system"], case["cfg"]["dram_structure"]]), evals=ev, tags=tags)

    def shrink(self, case):
        a = case["addrs"]
        n = len(a)
        while n >= 1:
            for i in range(0, len(a), n):
                if len(a) > 1:
                    yield dict(case, addrs=a[:i] + a[i + n:])
            n //= 2
        y = case["cfg"]["system"]
        for k, v in (("channels", "1"), ("address_mapping", "chrabgbaroco")):
            if y.get(k) != v:
                yield dict(case, cfg=dict(case["cfg"], system=dict(y, **{k: v})))


STOCKMAP = ("rochrababgco", "rorabgbachco", "chrobabgraco", "rorabgbacoch", "rocorabgbach", "chrorabgbaco")
CHECK = D03()
