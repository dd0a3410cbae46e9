import collections, json
import core, noc
from core import Check, Outcome, V


class R02(Check):
    prop = "R02"
    targets = ["simh_m"]
    technique = ("property-based testing: generated designs on 2 or 3 devices with mixed local and remote stream traffic under generated placements, clocks, "
                 "inter-RAD settings and back-pressure, judged end to end and at every portal's outer side")
    rule = "a case is non-trivial when at least 2 beats crossed between devices and a local beat was delivered too; distinct by design and traffic"
    quick_n = 2500
    thorough_n = 40000
    assumptions = ["the portal has a node of its own, is clocked with the driver clock, and the module that receives from another device is interface 0 of its node (the portal carries no interface id) and as wide as the portal",
                   "the inter-RAD queues are long enough for the traffic (property R01 has the overflow rule)",
                   "one virtual channel per message class"]

    def gen(self, rng, i, tier):
        v = "m"
        n = rng.choice([2, 2, 3])
        n0 = noc.rnd_noc(rng, v, topo="mesh")
        driver = noc.rnd_period(rng)
        rads = []
        for r in range(n):
            nc = noc.rnd_noc(rng, v, dims=n0["topo"]["k"], topo="mesh")
            for key in ("vcs", "cls"):
                nc[key] = n0[key]
            nc["clk"] = noc.rnd_period(rng)
            nc["obuf"] = rng.choice([1, 2, 2, 3, 8])
            mf = noc.flits(v, 512)
            nc["vc_buf"] = mf + rng.choice([0, 0, 1, 8])
            nc["fifo"] = mf + rng.choice([0, 0, 1, rng.randint(0, 20)])
            aclk = [noc.rnd_period(rng) for _ in range(rng.randint(1, 2))]
            mclk = [driver] + [noc.rnd_period(rng) for _ in range(rng.randint(0, 2))]
            nodes = list(range(nc["nodes"]))
            rng.shuffle(nodes)
            portal = nodes.pop()
            mods = []
            for k in range(rng.randint(1, min(5, 2 * len(nodes)))):
                node = nodes[k % len(nodes)] if rng.random() < 0.8 else rng.choice(nodes)
                same = [m for m in mods if m["node"] == node]
                ports = []
                for j in range(rng.randint(1, 3)):
                    kind = rng.choice(["as", "am"])
                    ports.append(dict(n="p%d" % j, k=kind, w=512 if kind == "as" else noc.rnd_widths(rng, v), t=rng.randrange(5)))
                    if kind == "as":
                        ports[-1]["ready"] = noc.rnd_runs(rng)
                if k == 0:
                    ports += [dict(n="px", k="as", w=512, t=0, ready=noc.rnd_runs(rng)), dict(n="py", k="am", w=noc.rnd_widths(rng, v), t=rng.randrange(5))]
                mods.append(dict(name="m%d" % k, noc=0, node=node, ac=same[0]["ac"] if same else rng.randrange(len(aclk)),
                                 mc=same[0]["mc"] if same else rng.randrange(len(mclk)), ports=ports))
            rd = dict(nocs=[nc], aclk=aclk, mclk=mclk, mods=mods, portal=portal, portal_mc=0, portal_ac=rng.randrange(len(aclk)))
            # the placement file in any order
            pl = noc.place_lines(rd)
            at = rng.randint(0, len(pl) - 1)
            pl.insert(at, pl.pop())
            if rng.random() < 0.5:
                rng.shuffle(pl)
            rd["place"] = [list(l) for l in pl]
            rads.append(rd)
        tot = rng.choice([1, 1, 2, 5, 16])
        case = dict(v=v, rads=rads, driver=driver, sends={}, ir=dict(lat=rng.choice([0, 1, 3, 20, rng.randint(1, 200)]), tot=tot, acc=rng.randint(1, tot), slots=2000))
        _, port = noc.ids(case)
        send = [(r, f) for (r, f), p in port.items() if p["k"] == "am"]
        recv = [(r, f) for (r, f), p in port.items() if p["k"] == "as"]
        total = rng.choice([6, 20, 60, 60] + ([300] if tier != "quick" else []))
        pr = rng.choice([0.3, 0.6, 0.95])
        burst = rng.random() < 0.4
        hot = rng.choice([x for x in recv if port[x]["iface"] == 0])
        hots = rng.random() < 0.3
        for num in range(total):
            r, f = rng.choice(send)
            if rng.random() < pr:
                cand = [x for x in recv if x[0] != r and port[x]["iface"] == 0]
            else:
                cand = [x for x in recv if x[0] == r]
            d = hot if hots and hot[0] != r and rng.random() < 0.8 else rng.choice(cand)
            g = 0 if burst or rng.random() < 0.5 else rng.choice([1, 2, rng.randint(0, 30), rng.randint(0, 200)])
            case["sends"].setdefault("%d:%s" % (r, f), []).append(
                [g, "%d:%s" % d, noc.userval(rng, v, num), rng.randrange(2), noc.hexdata(rng, 512)])
        return noc.finish_axis(noc.repeats(case, rng))

    def execute(self, case, wd):
        noc.write(case, wd)
        r, g = noc.simulate(self, case, wd)
        tags = ["n%d" % len(case["rads"])]
        vs = noc.crash(r, g)
        if vs:
            return Outcome(vs, tags=tags)
        if g.end[0] == "max":
            return Outcome(inconclusive="time limit with progress", tags=tags)
        vs = noc.judge_axis(case, g, exact_order=True, check_live=True)
        pid, port = noc.ids(case)
        remote = local = 0
        d = noc.W["m"]["destw"]
        for r in range(len(case["rads"])):
            want = collections.Counter()
            for full, l in case["sends"].items():
                sr, name = noc.split(full)
                if sr != r:
                    continue
                for x in l[:len(g.acc.get(pid[(sr, name)], []))]:
                    dr, dn = noc.split(x[1])
                    if dr != r:
                        want[(dr, x[2].lstrip("0") or "0")] += 1
                        remote += 1
                    else:
                        local += 1
            got = collections.Counter((x[1] >> (2 * d), x[2].lstrip("0") or "0") for x in g.x.get(r, []))
            own = [k for k in got if k[0] == r]
            if own:
                vs.append(V("left", "device %d put beat %s, addressed to itself, on the inter-RAD network" % (r, own[0][1])))
            bad = [(k, got[k], want[k]) for k in set(got) | set(want) if k[0] != r and got[k] != want[k]]
            if bad:
                vs.append(V("crossing", "device %d put beat %s for device %d on the inter-RAD network %d times, sent %d times" % (r, bad[0][0][1], bad[0][0][0], bad[0][1], bad[0][2])))
        return Outcome(vs[:6], nontrivial=remote >= 2 and local >= 1, evals=remote + local, sig=core.h([case["rads"], case["sends"], case["ir"]]),
                       tags=tags + ["end-" + g.end[0]])

    def shrink(self, case):
        cp = lambda: json.loads(json.dumps(case))
        flat = [(f, j) for f, l in sorted(case["sends"].items()) for j in range(len(l))]
        for part in core._ddmin(flat):
            keep = set(map(tuple, part))
            c = cp()
            c["sends"] = {f: [x for j, x in enumerate(l) if (f, j) in keep] for f, l in c["sends"].items()}
            c["sends"] = {f: l for f, l in c["sends"].items() if l}
            yield noc.finish_axis(c)
        for r, rd in enumerate(case["rads"]):
            for a, m in enumerate(rd["mods"]):
                for b, p in enumerate(m["ports"]):
                    if p.get("ready"):
                        c = cp()
                        c["rads"][r]["mods"][a]["ports"][b]["ready"] = []
                        yield noc.finish_axis(c)
        for f, j in flat:
            for k, v in ((0, 0), (3, 0), (4, "0")):
                if case["sends"][f][j][k] != v:
                    c = cp()
                    c["sends"][f][j][k] = v
                    yield noc.finish_axis(c)
        for k, v in (("lat", 0), ("tot", 1), ("acc", 1)):
            if case["ir"][k] != v and not (k == "tot" and case["ir"]["acc"] > 1):
                c = cp()
                c["ir"][k] = v
                yield noc.finish_axis(c)


CHECK = R02()
