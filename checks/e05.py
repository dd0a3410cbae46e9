"""E05: a run ends when every device is done, and its verdict and exit status are right."""
import math, os, random, re
import core, noc
from core import Check, Outcome, V
import e01, e02

M32 = 1 << 32


def ps(p):
    return int(p * 1000 + 0.5)


def lay_out(wd, case, d, rows, v="a"):
    """knobs, network and placement files of a one-device run"""
    n = case["noc"]
    full = {"v": v, "driver": case["period"], "rads": [{"nocs": [n], "aclk": [case["aclk"]], "mclk": [case["period"]]}]}
    os.makedirs(wd + "/sim/noc", exist_ok=True)
    kn = noc.knobs_text(full, wd).replace("design_noc_placement 0 x.place", "design_noc_placement 0 %s.place" % d)
    open(wd + "/sim/radsim_knobs", "w").write(kn)
    open(wd + "/sim/noc/noc0_rad0_config", "w").write(noc.noc_cfg_text(n))
    with open(wd + "/%s.place" % d, "w") as f, open(wd + "/%s.clks" % d, "w") as g:
        for m, k in rows:
            f.write("%s 0 %d axis\n" % (m, k))
            g.write("%s 0 0\n" % m)


class E05(Check):
    prop = "E05"
    targets = ["run_add", "runstub_add", "run_mult", "runstub_mult", "run_mlp", "run_cluster"]
    technique = "property-based testing: generated test-bench numbers, designs under test that answer right or spoiled, expected-output files that are right or spoiled, and devices finishing and failing at generated times, run through the generated main function; verdict line, exit status and end time compared with a model"
    rule = "the answer or the expected file was spoiled, or the design under test paused the test bench, or the devices finished at different times"
    quick_n = 2500
    thorough_n = 60000
    cpu_limit = 60
    assumptions = ["the exit status speaks for device 0, as config.py documents", "dlrm and mlp_int8 verdicts are E03's and E04's"]

    def gen(self, rng, i, tier):
        kind = ["stub", "cluster", "stub", "mlp", "real", "stub", "cluster", "stub"][i % 8]
        pert = rng.choice([0, 0, 1, 85, 165, 255])
        if kind == "cluster":
            far = rng.choice([5, 60, 1500])
            rads = []
            for r in range(3):
                done = rng.randint(2, far)
                rads.append({"done": done, "fails": sorted(rng.randint(1, done) for _ in range(rng.choice([0, 0, 1, 2])))})
            return {"kind": kind, "rads": rads, "period": noc.rnd_period(rng), "pert": pert}
        if kind == "mlp":
            c = e02.CHECK.gen(rng, i, tier)
            while c["n"] > 10 or sum(c["mvms"]) > 6 or c["in"] * c["dims"][0] > 3000:
                c = e02.CHECK.gen(rng, i, tier)
            c.update(kind=kind, pert=pert, tool=False, spoil=rng.choice(["none", "none", "lane", "lane", "last", "first", "bit31", "swap"]))
            return c
        d = rng.choice(["add", "mult"])
        c = e01.CHECK.gen(rng, i, tier)
        for k in ("vals", "iface", "rst"):
            del c[k]
        top = rng.choice([3, 10, 1000, 2 ** 31 - 1])
        c.update(kind=kind, d=d, pert=pert, nums=[rng.randint(0, top) for _ in range(8)])
        if d != c.get("d"):
            c["d"] = d
        if kind == "stub":
            mask = 0
            sp = rng.choice(["none", "none", "bit", "bit", "high", "off"])
            if sp == "bit":
                mask = 1 << rng.randrange(128)
            if sp == "high":
                mask = rng.getrandbits(96) << 32
            c.update(stall=rng.choice([0, 0, 30, 90]), seed=rng.getrandbits(30), delay=rng.choice([0, 1, 2, 7, 60]), hold=rng.randint(0, 1),
                     mask="%x" % mask, off=rng.choice([-1, 1, 2]) if sp == "off" else 0, garbage=rng.randint(0, 1))
        return c

    def verdict(self, o, r, log, good, what, both=True):
        """exit status and printed verdict against the truth"""
        if r.timeout:
            o.inconclusive = "time"
            return False
        try:
            L = [x.split() for x in open(log)]
        except OSError:
            L = []
        if L and L[-1][0] == "HANG":
            o.violations.append(V("never-ends", "%s: the run does not end" % what, "never-ends"))
            return False
        if not L or L[-1][0] != "RET" or r.rc < 0 or r.rc > 125:
            o.violations.append(V("crash", "%s: run ended with %s: %s" % (what, r.status(), (r.err + r.out)[-300:]), "crash"))
            return False
        if both:
            ok, bad = "SUCCESS" in r.out, "FAILURE" in r.out
            if ok == bad or ok != good:
                o.violations.append(V("verdict", "%s: printed %s, the outputs %s" % (what, "both verdicts" if ok and bad else "SUCCESS" if ok else "FAILURE" if bad else "no verdict", "match" if good else "do not match"), "verdict-%d" % good))
        if (r.rc == 0) != good:
            o.violations.append(V("exit", "%s: exit status %d, %s" % (what, r.rc, "nothing failed" if good else "the outputs do not match"), "exit-%d" % good))
        return True

    def cycles(self, o, r, wd, P, what):
        """the main function's cycle count against the simulated time"""
        m = re.search(r"Simulation Cycles from main.cpp = (-?\d+)", r.out)
        end = [round(float(x.split()[2]) * 1000) for x in open(wd + "/run.log") if x.startswith("RET")]
        if end and (not m or int(m.group(1)) != -(-end[0] // ps(P))):
            o.violations.append(V("cycles", "%s: %s cycles reported for a run of %s ps, period %s ns" % (what, m.group(1) if m else "no", end[0], P), "cycles"))

    def execute(self, case, wd):
        env = dict(os.environ, VROOT=wd)
        env["MALLOC_PERTURB_"] = str(case["pert"])     # memory from new holds junk, as it may
        o = Outcome(tags=[case["kind"]], sig=core.h(case))
        return getattr(self, case["kind"])(case, wd, env, o)

    def stub(self, case, wd, env, o):
        d = case["d"]
        lay_out(wd, case, d, [(e01.PORT[d], case["place"][0]), ("client_inst", case["place"][1])])
        P = case["period"]
        limit = max(P, case["aclk"], case["noc"]["clk"]) * (5000 + 40 * case.get("delay", 0))
        open(wd + "/run.txt", "w").write("%f %s\n" % (limit, " ".join(map(str, case["nums"]))))
        if case["kind"] == "stub":
            open(wd + "/stub.txt", "w").write("%d %d %d %d %s %d %d\n" % (case["stall"], case["seed"], case["delay"], case["hold"], case["mask"], case["off"], case["garbage"]))
        r = core.run_proc([self.bin[("runstub_" if case["kind"] == "stub" else "run_") + d], wd], cwd=wd, cpu=self.cpu_limit, env=env)
        m = re.search(r"Generating[^\n]*\n([\d ]+)\n", r.out)
        nums = [int(x) for x in m.group(1).split()] if m else []
        o.evals = max(1, len(nums))
        what = "%s of %s" % (d, nums)
        if case["kind"] == "real":
            good = True
        else:
            try:
                L = [x.split() for x in open(wd + "/out.log")]
            except OSError:
                L = []
            T = [x for x in L if x[0] == "T"]
            for x in L:
                if x[0] == "X":
                    o.violations.append(V("handshake", "%s: test bench: %s" % (what, x[1]), x[1]))
                    return o
            got = [int(x[2], 2) for x in T]
            if m and got != nums:
                o.violations.append(V("sent", "%s: sent %s" % (what, got), "sent"))
                return o
            if [x[1] for x in T] != ["0"] * (len(T) - 1) + ["1"]:
                o.violations.append(V("last", "%s: last flags %s" % (what, "".join(x[1] for x in T)), "last"))
                return o
            A = [x for x in L if x[0] == "A"]
            want = sum(got) if d == "add" else math.prod(got)
            good = bool(A) and int(A[0][1], 2) == want
            what += " answered %s" % (int(A[0][1], 2) if A else "nothing")
        if self.verdict(o, r, wd + "/run.log", good, what):
            self.cycles(o, r, wd, P, what)
            m = re.search(r"Simulation Cycles(?: for Just \w+ Portion)? = (-?\d+)", r.out)
            if case["kind"] == "stub" and A:
                # reset ends one cycle after the start; the test bench sees the answer one cycle after it was given
                k = int(A[0][2]) // ps(P)
                if not m or int(m.group(1)) != k:
                    o.violations.append(V("cycles", "%s: %s cycles reported between reset and answer, %d passed (period %s)" % (what, m.group(1) if m else "no", k, P), "cycles"))
        o.nontrivial = not good or bool(case.get("stall"))
        return o

    real = stub

    def mlp(self, case, wd, env, o):
        mv = case["mvms"]
        names = ["layer%d_mvm%d" % (l, m) for l in range(len(mv)) for m in range(mv[l])] + ["input_dispatcher%d" % m for m in range(mv[0])] + ["output_collector"]
        lay_out(wd, case, "mlp", list(zip(names, case["order"])))
        os.makedirs(wd + "/compiler/input_mifs", exist_ok=True)
        ins, want = e02.write_case(case, wd + "/compiler")
        for m, q in enumerate(ins):
            with open(wd + "/compiler/input_mifs/inputs_mvm%d.mif" % m, "w") as f:
                for x in q:
                    f.write(" ".join(map(str, x)) + " \n")
        gold = [list(x) for x in want]
        rng = random.Random(case["pseed"])
        k, e = rng.randrange(len(gold)), rng.randrange(16)
        sp = case["spoil"]
        if sp == "last":
            k, e = len(gold) - 1, 15
        if sp == "first":
            k, e = 0, 0
        if sp in ("lane", "last", "first"):
            gold[k][e] = e02.s32(gold[k][e] + rng.choice([1, -1, 256, 65536]))
        if sp == "bit31":
            gold[k][e] = e02.s32(gold[k][e] + 2 ** 31)
        if sp == "swap" and len(gold) > 1:
            gold[0], gold[-1] = gold[-1], gold[0]
        with open(wd + "/compiler/golden_outputs.mif", "w") as f:
            for x in gold:
                f.write(" ".join(map(str, x)) + " \n")
        P = max(case["period"], case["aclk"], case["noc"]["clk"])
        insts = max(r // 16 * c // 16 for r, c in e02.shapes(case))
        open(wd + "/run.txt", "w").write("%f\n" % (P * (20000 + 200 * insts * case["n"] * len(mv))))
        r = core.run_proc([self.bin["run_mlp"], wd], cwd=wd, cpu=self.cpu_limit, env=env)
        o.evals = len(want)
        o.tags.append(sp)
        what = "mlp layers %s engines %s, expected file %s at vector %d lane %d of %d" % ([case["in"]] + case["dims"], mv, sp, k, e, len(gold))
        if self.verdict(o, r, wd + "/run.log", gold == want, what):
            self.cycles(o, r, wd, case["period"], what)
        o.nontrivial = gold != want
        return o

    def cluster(self, case, wd, env, o):
        n = {"topology": "mesh", "rf": "dim_order", "topo": {"k": 4, "n": 2}, "nodes": 16, "vcs": 5, "vc_buf": 8, "out_buf": 8, "cls": [(0, 0), (1, 1), (2, 2), (3, 3), (4, 4)],
             "vca": "islip", "swa": "islip", "iters": 1, "wtc": 0, "cd": 1, "rd": 0, "va": 1, "sa": 1, "clk": 1.0, "fifo": 16, "obuf": 2}
        P = case["period"]
        full = {"v": "m", "driver": P, "rads": [{"nocs": [n], "aclk": [1.0], "mclk": [P]} for _ in case["rads"]]}
        os.makedirs(wd + "/sim/noc", exist_ok=True)
        open(wd + "/sim/radsim_knobs", "w").write(noc.knobs_text(full, wd))
        for r in range(3):
            os.makedirs(wd + "/r%d" % r, exist_ok=True)
            open(wd + "/sim/noc/noc0_rad%d_config" % r, "w").write(noc.noc_cfg_text(n))
            open(wd + "/r%d/x.place" % r, "w").write("portal_inst 0 %d axis\n" % r)
            open(wd + "/r%d/x.clks" % r, "w").write("portal_inst 0 0\n")
        with open(wd + "/script.txt", "w") as f:
            for x in case["rads"]:
                f.write("%d %d %s\n" % (x["done"], len(x["fails"]), " ".join(map(str, x["fails"]))))
        last = max(x["done"] for x in case["rads"])
        open(wd + "/run.txt", "w").write("%f\n" % (P * (last + 400) + 100))
        r = core.run_proc([self.bin["run_cluster"], wd], cwd=wd, cpu=self.cpu_limit, env=env)
        what = "devices done/failing at %s" % [(x["done"], x["fails"]) for x in case["rads"]]
        o.evals = len(case["rads"])
        good = not case["rads"][0]["fails"]
        o.nontrivial = len({x["done"] for x in case["rads"]}) > 1
        if self.verdict(o, r, wd + "/run.log", good, what, both=False):
            self.cycles(o, r, wd, P, what)
            done = [float(x) for x in re.findall(r"DONE \d+ ([\d.]+)", r.out)]
            end = [float(x.split()[2]) for x in open(wd + "/run.log") if x.startswith("RET")]
            if len(done) != len(case["rads"]):
                o.violations.append(V("early-end", "%s: the run ended when only %d of %d devices were done" % (what, len(done), len(case["rads"])), "early-end"))
            elif end and end[0] > max(done) + 2 * P + 2:
                o.violations.append(V("late-end", "%s: the last device was done at %g ns, the run ended at %g ns" % (what, max(done), end[0]), "late-end"))
        return o

    def shrink(self, case):
        if case["pert"]:
            yield dict(case, pert=0)
        if case["kind"] == "cluster":
            for i, x in enumerate(case["rads"]):
                if x["done"] > 2:
                    yield core.setp(case, ["rads", i, "done"], x["done"] // 2)
                for k in range(len(x["fails"])):
                    yield core.setp(case, ["rads", i, "fails"], x["fails"][:k] + x["fails"][k + 1:])
        elif case["kind"] == "mlp":
            for c in e02.CHECK.shrink(case):
                yield c
        else:
            for k, v in (("stall", 0), ("delay", 0), ("garbage", 0), ("hold", 1)):
                if case.get(k, v) != v:
                    yield core.setp(case, [k], v)
            if any(case["nums"]):
                yield core.setp(case, ["nums"], [0] * 8)


CHECK = E05()
