import json
import core, noc
from core import Check, Outcome, V


class N01(Check):
    prop = "N01"
    targets = ["simh_a", "simh_b", "simh_c"]
    technique = "property-based testing: generated stream designs run in the real simulator, delivery compared with a per-pair FIFO reference"
    rule = ("a case is non-trivial when at least 4 beats were accepted and two or more senders or receivers were in use, or a "
            "receiver exerted back-pressure; distinct by the whole generated design and traffic")
    quick_n = 7000
    thorough_n = 120000
    assumptions = ["a receiver port is at least as wide (in flits) as its senders and the adapter FIFOs hold a whole packet",
                   "order is checked when each traffic class has one virtual channel",
                   "modules that share a node share its clock settings; all networks of a device have the same shape"]

    def gen(self, rng, i, tier):
        big = tier == "thorough" and rng.random() < 0.3
        return noc.finish_axis(noc.repeats(noc.gen_axis(rng, maxmsgs=300 if big else 60, maxmods=14 if big else 8), rng))

    def execute(self, case, wd):
        noc.write(case, wd)
        r, g = noc.simulate(self, case, wd)
        vs = noc.crash(r, g)
        tags = ["v" + case["v"], case["rads"][0]["nocs"][0]["topology"]]
        if vs:
            return Outcome(vs, tags=tags)
        vs = noc.judge_axis(case, g, exact_order=noc.ordered(case))
        nacc = sum(len(x) for x in g.acc.values())
        bp = any(p.get("ready") for m in case["rads"][0]["mods"] for p in m["ports"])
        tags += ["end-" + g.end[0], "ordered" if noc.ordered(case) else "multi-vc"]
        if g.end[0] != "done" and not vs:
            # whether the network makes progress is N02's question
            return Outcome(vs, inconclusive="no end" if g.end[0] == "max" else "stalled", tags=tags)
        return Outcome(vs, nontrivial=nacc >= 4 and (len(g.acc) + len(g.rec) > 2 or bp), sig=core.h(case), evals=max(nacc, 1), tags=tags)

    def shrink(self, case):
        return noc.shrink_axis(case)


CHECK = N01()
