import dram
from core import Check, Outcome, h


class D02(Check):
    prop = "D02"
    targets = ["dramh"]
    technique = "generated device configurations and transaction streams, independent state and timing rules over the command trace"
    rule = "at least 20 transactions completed and at least one row conflict or refresh in the command trace"
    quick_n = 4000
    thorough_n = 60000
    assumptions = ["capacities, queue sizes and geometry are powers of two where the mapping needs it", "write latency not above read latency"]

    def gen(self, rng, i, tier):
        return dram.gen_case(rng, tier)

    def execute(self, case, wd):
        r = dram.run(self, case, wd)
        vs = dram.judge_trace(case, r)
        ks = set(x[1] for tr in r.trace for x in tr)
        return Outcome(vs, len(r.comp) >= 20 and bool(ks & {"PRE", "REF", "REFB"}), h(case["t"]), evals=max(1, len(r.comp)), tags=dram.tags(case, r))

    def shrink(self, case):
        return dram.shrink(case)


CHECK = D02()
