import collections, json
import core, noc
from core import Check, Outcome, V

DW = noc.W["m"]["destw"]


class R01(Check):
    prop = "R01"
    targets = ["simh_m"]
    technique = ("property-based testing: generated traffic between 2 to 5 devices' portals under generated latencies, accept windows, "
                 "queue sizes and back-pressure, every beat followed from portal to portal against a reference model of the queues")
    rule = "a case is non-trivial when at least two senders or two destinations are used and at least 4 beats came out of the inter-RAD network; distinct by configuration and traffic"
    quick_n = 3000
    thorough_n = 60000
    assumptions = ["the portals' clock is the driver clock, as the inter-RAD network's is",
                   "a beat may be dropped when its destination's queue holds the configured number of beats at that edge"]

    def gen(self, rng, i, tier):
        n = rng.choice([2, 2, 2, 3, 3, 4, 5])
        per = rng.choice([5.0, 1.0, 2.5, 0.5, 7.3])
        tot = rng.choice([1, 1, 2, 3, 5, 7, 16, 40])
        acc = rng.choice([tot, rng.randint(1, tot), rng.randint(1, tot), 1])
        lat = rng.choice([0, 1, 2, 3, 5, 20, rng.randint(1, 120), 300])
        nb = rng.choice([3, 10, 40, 100] + ([600] if tier != "quick" else []))
        slots = rng.choice([1000, 1000, 1000, nb * 2, lat + 2, 1, 2, 4, rng.randint(1, 60)])
        style = rng.choice(["uniform", "hot", "ring", "pair", "burst"])
        hot = rng.randrange(n)
        sends = [[] for _ in range(n)]
        for k in range(nb):
            s = rng.randrange(n)
            d = {"uniform": rng.randrange(n), "hot": hot if rng.random() < 0.8 else rng.randrange(n), "ring": (s + 1) % n,
                 "pair": n - 1 - s, "burst": hot}[style]
            g = 0 if style == "burst" or rng.random() < 0.6 else rng.choice([1, 2, rng.randint(0, 10), rng.randint(0, 80)])
            sends[s].append([g, d, rng.randrange(1 << DW), rng.randrange(1 << DW), rng.randrange(256),
                             "%x" % ((int(noc.hexdata(rng, noc.W["m"]["user"]), 16) >> 11 << 11) | k), rng.randrange(2), noc.hexdata(rng, 512)])
        case = dict(v="m", n=n, driver=per, ir=dict(lat=lat, acc=acc, tot=tot, slots=slots), s=sends,
                    ready=[noc.rnd_runs(rng) for _ in range(n)])
        return self.finish(case)

    def finish(self, case):
        n, per, ir = case["n"], case["driver"], case["ir"]
        rads = []
        want = 0
        for r in range(n):
            L = []
            for g, d, node, rem, tid, u, last, data in case["s"][r]:
                td = node | (rem << DW) | (d << (2 * DW))
                L.append("s portal %d %d %d %s %d %s" % (g, tid, td, u, last, data))
                want += 4
            if case["ready"][r]:
                L.append("ready portal " + " ".join(map(str, case["ready"][r])))
            rads.append(dict(nocs=[dict(topology="mesh", topo={"k": 2, "n": 2}, nodes=4, rf="dim_order", vcs=5, cls=[[i, i] for i in range(5)],
                                        vc_buf=8, out_buf=8, vca="islip", swa="islip", iters=1, wtc=0, cd=1, rd=1, va=1, sa=1, clk=1.0, fifo=16, obuf=2)],
                             aclk=[1.0], mclk=[per], mods=[], direct=per, place=[], lines=L))
        case["rads"] = rads
        case["irad"] = 1
        case["want"] = want
        mx = max([0] + [x[0] for l in case["s"] for x in l] + [y for r in case["ready"] for y in r])
        case["stallns"] = int(per * (ir["lat"] + ir["tot"] + 200 + 3 * mx)) + 2000
        case["maxns"] = case["stallns"] * 3 + int(per * want * (10 + ir["tot"] / max(1, ir["acc"]) + mx))
        case["drainns"] = int(per * 30)
        return case

    def execute(self, case, wd):
        noc.write(case, wd)
        r, g = noc.simulate(self, case, wd)
        vs = noc.crash(r, g)
        ir = case["ir"]
        if vs:
            return Outcome(vs)
        if g.end[0] == "max":
            return Outcome(inconclusive="time limit with progress")
        vs, out, dests, srcs = self.judge(case, g)
        return Outcome(vs, nontrivial=(len(dests) > 1 or len(srcs) > 1) and out >= 4, evals=max(1, out),
                       sig=core.h([case["ir"], case["s"], case["n"]]), tags=["n%d" % case["n"], "end-" + g.end[0]])

    def judge(self, case, g):
        ir, n = case["ir"], case["n"]
        vs = []
        edges = [x[0] for x in g.irad[0]]
        at = {t: k for k, t in enumerate(edges)}
        T, A = ir["tot"], min(ir["acc"], ir["tot"])
        # accept window: the same in every period, for every sender
        for d in range(n):
            rdy = [x[2] for x in g.irad[d]][3:]
            for k in range(len(rdy) - T):
                if sum(rdy[k:k + T]) != A:
                    vs.append(V("rate", "device %d: ready in %d of the %d cycles from cycle %d, the accept window is %d of %d" % (d, sum(rdy[k:k + T]), T, k + 3, A, T)))
                    break
        norm = lambda x: (x[0], x[1].lstrip("0") or "0", x[2], noc.mask(x[3], 512))
        # into the portal -> onto the inter-RAD network
        src = {}
        wr = collections.defaultdict(list)           # destination -> accepted beats (edge, sender, fields)
        for d in range(n):
            acc = g.acc.get(d, [])
            sent = []
            for k, (t, idx) in enumerate(acc):
                gap, dd, node, rem, tid, u, last, data = case["s"][d][idx]
                sent.append((t, (node | (rem << DW) | (dd << (2 * DW)), u.lstrip("0") or "0", last, noc.mask(data, 512))))
            x = [(t,) + norm(f) for t, *f in g.x.get(d, [])]
            for k, b in enumerate(x):
                if k >= len(sent) or b[1:] != sent[k][1]:
                    vs.append(V("portal-out", "device %d put %s on the inter-RAD network as beat %d, its network gave it %s" % (d, b[1:], k, sent[k][1] if k < len(sent) else None)))
                    break
                if b[0] < sent[k][0]:
                    vs.append(V("portal-out", "device %d sent beat %d before it arrived" % (d, k)))
            if len(x) < len(sent):
                vs.append(V("portal-stuck", "device %d: %d of %d beats left for the inter-RAD network" % (d, len(x), len(sent))))
            if len(acc) < len(case["s"][d]):
                vs.append(V("not-accepted", "device %d: portal took %d of %d beats" % (d, len(acc), len(case["s"][d]))))
            for t, td, u, last, data in x:
                dd, rem = td >> (2 * DW), (td >> DW) & ((1 << DW) - 1)
                wr[dd].append((at[t], d, (rem | (dd << (2 * DW)), u, last, data)))
        nout = 0
        srcs = set()
        for d in range(n):
            inn = sorted(wr.get(d, []), key=lambda b: b[0])
            ys = [(at[t],) + norm(f) for t, *f in g.y.get(d, [])]
            nout += len(ys)
            # which accepted beat each delivered one is (the user field tells beats apart)
            where = {b[2][1]: k for k, b in enumerate(inn)}
            got = {}
            lastedge = -1
            lastin = -1
            for e, *f in ys:
                k = where.get(f[1])
                if k is None:
                    vs.append(V("spurious", "device %d was given %s, which nobody sent to it" % (d, f)))
                    continue
                if k in got:
                    vs.append(V("duplicate", "device %d was given beat %s twice" % (d, f[1])))
                    continue
                if tuple(f) != inn[k][2]:
                    vs.append(V("altered", "device %d was given %s, expected %s" % (d, f, inn[k][2])))
                if inn[k][0] < lastin:
                    vs.append(V("order", "device %d: beat %s accepted at cycle %d came after one accepted at cycle %d" % (d, f[1], inn[k][0], lastin)))
                if e - inn[k][0] < ir["lat"]:
                    vs.append(V("early", "device %d: beat %s took %d cycles, latency is %d" % (d, f[1], e - inn[k][0], ir["lat"])))
                if e > max(inn[k][0] + ir["lat"] + 3, lastedge + 1):
                    vs.append(V("late", "device %d: beat %s accepted at cycle %d came at cycle %d with the output idle since %d, latency is %d" %
                                (d, f[1], inn[k][0], e, lastedge, ir["lat"])))
                lastin = max(lastin, inn[k][0])
                lastedge = e
                got[k] = e
                srcs.add(inn[k][1])
            # per sender order at equal acceptance is implied: a sender offers one beat per edge
            for k, b in enumerate(inn):
                if k in got:
                    continue
                # held in the queue at this edge: delivered beats accepted no later that had not been read before it
                held = sum(1 for j, e in got.items() if inn[j][0] <= b[0] and e - 1 >= b[0])
                if held < ir["slots"]:
                    vs.append(V("lost", "device %d never got beat %s accepted at cycle %d, with %d of %d queue places taken" % (d, b[2][1], b[0], held, ir["slots"])))
                    break
            # from the portal onto the device's network
            want = [tuple(f) for e, *f in ys]
            rec = [norm(f) for t, *f in g.rec.get(d, [])]
            if rec != want[:len(rec)] or (len(rec) < len(want)):
                k = next((k for k in range(min(len(rec), len(want))) if rec[k] != want[k]), min(len(rec), len(want)))
                vs.append(V("portal-in", "device %d's portal gave its network %d beats, %d came in; beat %d: %s, came in %s" %
                            (d, len(rec), len(want), k, rec[k] if k < len(rec) else None, want[k] if k < len(want) else None)))
        if g.hold:
            vs.append(V("not-held", "; ".join(g.hold[:2])))
        return vs[:6], nout, [d for d in wr if wr[d]], srcs

    def shrink(self, case):
        cp = lambda: {k: json.loads(json.dumps(v)) for k, v in case.items() if k != "rads"}
        flat = [(r, j) for r in range(case["n"]) for j in range(len(case["s"][r]))]
        for part in core._ddmin(flat):
            keep = set(map(tuple, part))
            c = cp()
            c["s"] = [[x for j, x in enumerate(l) if (r, j) in keep] for r, l in enumerate(case["s"])]
            yield self.finish(c)
        if case["n"] > 2 and not case["s"][-1] and not any(x[1] == case["n"] - 1 for l in case["s"] for x in l):
            c = cp()
            c["n"] -= 1
            c["s"].pop()
            c["ready"].pop()
            yield self.finish(c)
        for r in range(case["n"]):
            if case["ready"][r]:
                c = cp()
                c["ready"][r] = []
                yield self.finish(c)
        for k, vals in (("lat", (0, 1)), ("tot", (1, 2)), ("acc", (1,)), ("slots", (1000,))):
            for v in vals:
                if case["ir"][k] != v and not (k == "tot" and v < case["ir"]["acc"]):
                    c = cp()
                    c["ir"][k] = v
                    yield self.finish(c)
        for r, j in flat:
            for k, v in ((0, 0), (2, 0), (3, 0), (6, 0), (7, "0")):
                if case["s"][r][j][k] != v:
                    c = cp()
                    c["s"][r][j][k] = v
                    yield self.finish(c)


CHECK = R01()
