import dram
from core import Check, Outcome, h


class D04(Check):
    prop = "D04"
    targets = ["dramh"]
    technique = "generated device configurations and transaction streams, statistics recomputed from the command history"
    rule = "at least 20 transactions completed and at least one row conflict or refresh in the command trace"
    quick_n = 4000
    thorough_n = 60000
    assumptions = ["capacities, queue sizes and geometry are powers of two where the mapping needs it", "write latency not above read latency"]

    def gen(self, rng, i, tier):
        return dram.gen_case(rng, tier)

    def execute(self, case, wd):
        r = dram.run(self, case, wd)
        vs = dram.judge_stats(case, r, wd)
        ks = set(x[1] for tr in r.trace for x in tr)
        return Outcome(vs, len(r.comp) >= 20 and bool(ks & {"PRE", "REF", "REFB"}), h(case["t"]), evals=max(1, len(r.comp)), tags=dram.tags(case, r))

    def shrink(self, case):
        return dram.shrink(case)


CHECK = D04()
