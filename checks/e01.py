"""E01: the adder and multiplier examples compute the right result."""
import math, os
import core, noc
from core import Check, Outcome, V

PORT = {"add": "adder_inst", "mult": "mult_inst"}


def gen_values(rng, d):
    n = rng.choice([1, 2, 3, 5, 8, 13, 16, 17, 24, 40, 60])
    if d == "add":
        bits = rng.choice([1, 4, 8, 32, 57])
        return [rng.getrandbits(bits) if rng.random() < 0.9 else 0 for _ in range(n)]
    left, out = 63.0, []
    for _ in range(n):
        top = rng.choice([1, 2, 3, 10, 255, 65536, 1 << 20])
        v = rng.randint(1, top)
        if math.log2(v) > left:
            v = 1
        left -= math.log2(v) + 1e-9
        out.append(v)
    if rng.random() < 0.1:
        out[rng.randrange(n)] = 0
    return out


class E01(Check):
    prop = "E01"
    targets = ["exh_add", "exh_mult"]
    technique = "property-based testing: generated operand sequences, pacing, networks, clocks and placements through the unmodified example designs, result compared with integer arithmetic"
    rule = "at least two operands were accepted and the response was observed"
    quick_n = 500
    thorough_n = 12000
    cpu_limit = 60
    assumptions = ["the exact result fits in 64 bits; one operand list per run; test bench and design modules share a clock period; one virtual channel per class"]

    def gen(self, rng, i, tier):
        v = "a"
        while True:       # order across the network needs one virtual channel per class
            n = noc.rnd_noc(rng, v, topo="mesh")
            if all(b == e for b, e in n["cls"]):
                break
        fl = noc.flits(v, 128)
        n["vc_buf"] = max(n["vc_buf"], fl)
        n["fifo"] = max(fl, rng.choice([2, 4, 8, 16]))
        n["obuf"] = rng.choice([1, 2, 3])
        n["clk"] = noc.rnd_period(rng)
        d = rng.choice(["add", "mult"])
        mods = [PORT[d], "client_inst"]
        nodes = [rng.randrange(n["nodes"]) for _ in mods]
        vals = gen_values(rng, d)
        return {"d": d, "noc": n, "place": nodes, "iface": rng.randint(0, 1), "period": noc.rnd_period(rng), "aclk": noc.rnd_period(rng),
                "rst": rng.choice([1, 1, 2, 5]), "vals": [[rng.choice([0, 0, 0, 1, 2, 7, 30]) if rng.random() < 0.5 else 0, v] for v in vals]}

    def execute(self, case, wd):
        d, n = case["d"], case["noc"]
        full = {"v": "a", "driver": case["period"], "rads": [{"nocs": [n], "aclk": [case["aclk"]], "mclk": [case["period"]]}]}
        os.makedirs(wd + "/sim/noc", exist_ok=True)
        kn = noc.knobs_text(full, wd).replace("design_noc_placement 0 x.place", "design_noc_placement 0 %s.place" % d)
        open(wd + "/sim/radsim_knobs", "w").write(kn)
        open(wd + "/sim/noc/noc0_rad0_config", "w").write(noc.noc_cfg_text(n))
        rows = [(PORT[d], case["place"][0]), ("client_inst", case["place"][1])]
        with open(wd + "/%s.place" % d, "w") as f:
            for m, k in rows:
                f.write("%s 0 %d axis\n" % (m, k))
        with open(wd + "/%s.clks" % d, "w") as f:
            for m, k in rows:
                f.write("%s 0 0\n" % m)
        vals = case["vals"]
        with open(wd + "/scenario.txt", "w") as f:
            ratio = max(n["clk"], case["aclk"], case["period"]) / case["period"]
            f.write("%d %d\n" % (case["rst"], (600 + 300 * len(vals)) * (1 + ratio)))
            for i, (g, v) in enumerate(vals):
                f.write("%d %d %x\n" % (g, i + 1 == len(vals), v))
        r = core.run_proc([self.bin["exh_" + d], wd], cwd=wd, cpu=self.cpu_limit)
        o = Outcome(evals=len(vals), tags=[d], sig=core.h(case))
        try:
            L = [x.split() for x in open(wd + "/out.log")]
        except OSError:
            L = []
        if r.timeout:
            o.inconclusive = "time"
            return o
        if r.rc != 0 or not L or L[-1][0] != "E":
            o.violations.append(V("crash", "simulation ended with %s: %s" % (r.status(), (r.err + r.out)[-300:])))
            return o
        want = sum(v for _, v in vals) if d == "add" else math.prod(v for _, v in vals)
        if L[-1][1] != L[-1][2]:
            o.violations.append(V("stuck", "only %s of %s operands were accepted" % (L[-1][1], L[-1][2]), "stuck"))
        R = [x for x in L if x[0] == "R"]
        if not R:
            o.violations.append(V("no-result", "no response to %d operands" % len(vals), "no-result"))
            return o
        o.nontrivial = len(vals) >= 2
        for x in R:
            if x[2] == "1" and int(x[3], 2) != want:
                o.violations.append(V("result", "%s of %s reported as %d, is %d" % (d, [v for _, v in vals][:6], int(x[3], 2), want), "result"))
                break
        if R[-1][2] != "1":
            o.violations.append(V("withdrawn", "the response did not stay valid", "withdrawn"))
        first = [int(x[1]) for x in R if x[2] == "1"]
        sent = [int(x[1]) for x in L if x[0] == "S"]
        if first and sent and first[0] < sent[-1]:
            o.violations.append(V("early", "response before the last operand was accepted", "early"))
        return o

    def shrink(self, case):
        for c in core.shrink_list(case, ["vals"]):
            if c["vals"]:
                yield c
        for i, (g, v) in enumerate(case["vals"]):
            if g:
                yield core.setp(case, ["vals", i, 0], 0)
            if v > 1:
                yield core.setp(case, ["vals", i, 1], v // 2)
        if case["rst"] > 1:
            yield dict(case, rst=1)


CHECK = E01()
