import core, mm, noc
from core import Check, Outcome


class N03(Check):
    prop = "N03"
    targets = ["simh_a", "simh_b", "simh_c"]
    technique = "property-based testing: generated memory-mapped traffic between scripted requesters and targets in the real simulator, every transfer tracked by a unique number against what was accepted"
    rule = ("a case is non-trivial when at least 3 transfers on at least 2 channels were accepted; distinct by the whole "
            "generated design and traffic")
    quick_n = 5000
    thorough_n = 90000
    assumptions = ["one memory-mapped port per node; a requester offers the next write address after the last data beat of the previous burst",
                   "virtual-channel buffers and adapter FIFOs hold a whole packet; order is checked when each class has one virtual channel"]

    def gen(self, rng, i, tier):
        return mm.finish(mm.gen_mm(rng, big=tier == "thorough" and rng.random() < 0.2))

    def execute(self, case, wd):
        noc.write(case, wd)
        r, g = noc.simulate(self, case, wd)
        tags = ["v" + case["v"], "ratio-ok" if mm.ratio_class(case) else "ratio-low", "ordered" if noc.ordered(case) else "multi-vc"]
        vs = noc.crash(r, g)
        if vs:
            return Outcome(vs, tags=tags)
        if g.end[0] == "max":
            return Outcome(inconclusive="time limit with progress", tags=tags)
        vs = mm.judge(case, g)
        n = sum(len(x) for x in g.macc.values())
        return Outcome(vs, nontrivial=n >= 3 and len({c for _, c in g.macc}) >= 2, sig=core.h(case), evals=max(1, n), tags=tags + ["end-" + g.end[0]])

    def shrink(self, case):
        return mm.shrink(case)


CHECK = N03()
