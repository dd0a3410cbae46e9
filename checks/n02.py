import core, noc
from core import Check, Outcome, V


class N02(Check):
    prop = "N02"
    targets = ["simh_a", "simh_b", "simh_c"]
    technique = "property-based testing: generated traffic under generated back-pressure and clock ratios, with a bounded-progress monitor and a hold-while-not-ready monitor at every receiver"
    rule = ("a case is non-trivial when a receiver was not ready for part of the run or a beat waited for acceptance, and at "
            "least 4 beats crossed; distinct by the whole generated design and traffic")
    quick_n = 7000
    thorough_n = 100000
    assumptions = ["ejection FIFOs and virtual-channel buffers hold at least one whole packet (the adapters store and forward)",
                   "progress bound: no accept or delivery for 3000 cycles of the slowest clock plus four times the longest scripted gap or not-ready run counts as stuck"]

    def gen(self, rng, i, tier):
        if i % 3500 == 5:
            # a network that has been running for milliseconds of simulated time
            c = noc.gen_axis(rng, v="c", maxmsgs=8, maxmods=3, period=lambda: 5.0, nsends=9, nnocs=1)
            c["driver"] = 5.0
            s = sorted(c["sends"])[0]
            c["sends"] = {s: [x for l in c["sends"].values() for x in l]}
            dst = c["sends"][s][0][1]
            for x in c["sends"][s]:
                x[0], x[1] = 60000, dst
            c["longrun"] = 1
            return self.finish(c)

        def per():
            c = rng.random()
            if c < 0.25:
                return rng.choice([0.25, 0.4, 0.5, 10.0, 16.0, 20.0])
            return noc.rnd_period(rng)
        big = tier == "thorough" and rng.random() < 0.2
        c = noc.gen_axis(rng, maxmsgs=400 if big else 80, maxmods=16 if big else 8, period=per)
        for m in c["rads"][0]["mods"]:
            for p in m["ports"]:
                if p["k"] == "as" and rng.random() < 0.5:
                    p["ready"] = noc.rnd_runs(rng, rng.choice(["slow", "bursty", "rare", "alt"]))
        # an idle stretch in the middle, then traffic again
        if rng.random() < 0.3:
            for l in c["sends"].values():
                if len(l) > 1:
                    l[len(l) // 2][0] += rng.randint(200, 2500)
        return self.finish(c)

    def finish(self, c):
        noc.finish_axis(c)
        if c.get("longrun"):
            c["stallns"] = 600000
            c["maxns"] = 6000000
        return c

    def execute(self, case, wd):
        noc.write(case, wd)
        r, g = noc.simulate(self, case, wd)
        tags = ["v" + case["v"], case["rads"][0]["nocs"][0]["topology"]]
        vs = noc.crash(r, g)
        if vs:
            return Outcome(vs, tags=tags)
        if g.end[0] == "max":
            return Outcome(inconclusive="time limit with progress", tags=tags)
        vs = noc.judge_axis(case, g, check_data=False, check_live=g.end[0] == "stall", check_hold=True)
        nacc = sum(len(x) for x in g.acc.values())
        bp = any(p.get("ready") for m in case["rads"][0]["mods"] for p in m["ports"])
        tags += ["end-" + g.end[0]] + (["back-pressure"] if bp else []) + (["long-run"] if case.get("longrun") else [])
        return Outcome(vs, nontrivial=nacc >= 4 and (bp or "longrun" in case), sig=core.h(case), evals=max(1, nacc), tags=tags)

    def shrink(self, case):
        for c in noc.shrink_axis(case):
            yield self.finish(c)


CHECK = N02()
