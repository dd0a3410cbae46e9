import core, memc, noc
from core import Check, Outcome


class M01(Check):
    prop = "M01"
    targets = ["simh_a", "simh_b"]
    technique = "property-based testing: generated read and write bursts against the real memory controller and DRAM model (wired directly or through the NoC), judged by a register model with unique write values and the DRAM's own per-channel counts"
    rule = "at least 2 writes and 2 reads answered, of which one read covers a word written in the case; distinct by configuration and operations"
    quick_n = 1500
    thorough_n = 40000
    assumptions = ["addresses aligned to the controller's word; power-of-two geometry; one writer per channel when several requesters share the network",
                   "controller queue size above 16 (its own margin)"]

    def gen(self, rng, i, tier):
        return memc.gen(rng, tier)

    def execute(self, case, wd):
        memc.write(case, wd)
        r, g = noc.simulate(self, case, wd)
        tags = [case["v"], case["mode"], case["cfg"]["dram_structure"]["protocol"]]
        vs = noc.crash(r, g)
        if vs:
            return Outcome(vs, tags=tags)
        if g.end[0] == "max":
            return Outcome(inconclusive="time limit with progress", tags=tags)
        vs = memc.judge(case, r, g, wd)
        wr = set((p["ch"], w) for p in case["plan"] if p["w"] for w in p["words"])
        nr = [p for p in case["plan"] if not p["w"]]
        nt = len(nr) >= 2 and len(case["plan"]) - len(nr) >= 2 and any((p["ch"], w) in wr for p in nr for w in p["words"])
        return Outcome(vs, nontrivial=nt, sig=core.h([case["ops"], case["cfg"]["name"]]), evals=sum(len(p["words"]) for p in case["plan"]) or 1,
                       tags=tags + ["end-" + g.end[0]])

    def shrink(self, case):
        return memc.shrink(case)


CHECK = M01()
