"""E02: the MLP example computes the reference chain of matrix-vector products."""
import math, os, sys
import core, noc, build
from core import Check, Outcome, V

ND = 16
M32 = 1 << 32


def s32(x):
    x %= M32
    return x - M32 if x >= M32 // 2 else x


def up(n, k):
    return -(-n // (ND * k)) * ND * k


def shapes(case):
    """[(rows, columns)] of the padded weight matrix of each layer"""
    mv, dims = case["mvms"], [case["in"]] + case["dims"]
    out = []
    for l in range(len(mv)):
        o = mv[l + 1] if l + 1 < len(mv) else mv[0]
        out.append((up(dims[l + 1], o), up(dims[l], mv[l])))
    return out


def values(rng, kind, n):
    if kind == "small":
        return [rng.randint(-2, 1) for _ in range(n)]
    if kind == "wide":
        return [rng.randint(-2 ** 31, 2 ** 31 - 1) for _ in range(n)]
    if kind == "sparse":
        return [rng.choice([0, 0, 0, 0, 1, -1, 2 ** 31 - 1, -2 ** 31]) for _ in range(n)]
    return [rng.randint(-300, 300) for _ in range(n)]


def data(case):
    """unpadded weights and inputs (drawn from the case's seed)"""
    import random
    rng = random.Random(case["seed"])
    dims = [case["in"]] + case["dims"]
    W = []
    for l in range(len(case["mvms"])):
        W.append([values(rng, case["kind"], dims[l]) for _ in range(dims[l + 1])])
    X = [values(rng, case["kind"], case["in"]) for _ in range(case["n"])]
    return W, X


def reference(W, X, rows):
    out = []
    for x in X:
        v = x
        for w in W:
            v = [s32(sum(a * b for a, b in zip(r, v))) for r in w]
        v = v + [0] * (rows - len(v))
        out += [v[i:i + ND] for i in range(0, rows, ND)]
    return out


def write_case(case, cd):
    """the files gen_testcase.py produces, for given weights and inputs"""
    for d in ("weight_mifs", "inst_mifs"):
        os.makedirs(cd + "/" + d, exist_ok=True)
    W, X = data(case)
    mv, sh = case["mvms"], shapes(case)
    L = len(mv)
    for l in range(L):
        rows, cols = sh[l]
        w = [r + [0] * (cols - len(r)) for r in W[l]] + [[0] * cols for _ in range(rows - len(W[l]))]
        limy = rows // ND
        for m in range(mv[l]):
            blocks = list(range(m, cols // ND, mv[l]))
            for d in range(ND):
                with open(cd + "/weight_mifs/layer%d_mvm%d_dot%d.mif" % (l, m, d), "w") as f:
                    for i in blocks:
                        for j in range(limy):
                            f.write(" ".join(str(x) for x in w[j * ND + d][i * ND:(i + 1) * ND]) + " \n")
            with open(cd + "/inst_mifs/layer%d_mvm%d.mif" % (l, m), "w") as f:
                for i in range(len(blocks)):
                    for j in range(limy):
                        if m == mv[l] - 1:
                            dest = (0, 0) if l == L - 1 else (l + 2, j % mv[l + 1])
                        else:
                            dest = (l + 1, m + 1)
                        f.write("1 0 %d %d %d %d %d %d %d %d\n" % (m > 0 and i == len(blocks) - 1, j, i > 0, i == len(blocks) - 1, i * limy + j, j == limy - 1, *dest))
                f.write("1 1 0 0 0 0 0 0 0 0\n")
    open(cd + "/layer_mvm_config", "w").write("%d %s " % (L, " ".join(map(str, mv))))
    cols = sh[0][1]
    ins = [[] for _ in range(mv[0])]
    for x in X:
        x = x + [0] * (cols - len(x))
        for c in range(cols // ND):
            ins[c % mv[0]].append(x[c * ND:(c + 1) * ND])
    return ins, reference(W, X, sh[-1][0])


class E02(Check):
    prop = "E02"
    targets = ["exmlp"]
    technique = "property-based testing: generated layer shapes, partitionings, weights, inputs, pacing, networks and placements through the unmodified MLP example and its test-case compiler, outputs compared with a reference matrix-vector chain"
    rule = "at least one weight matrix has more than one block or is split over engines, and all outputs were observed"
    quick_n = 90
    thorough_n = 3000
    cpu_limit = 120
    assumptions = ["at most 14 layers, engines fit the network, where several engines share a layer, few enough vectors not to fill their FIFOs; one virtual channel per class; bench and modules share a clock period"]

    def gen(self, rng, i, tier):
        while True:
            n = noc.rnd_noc(rng, "a", topo="mesh")
            if all(b == e for b, e in n["cls"]) and n["nodes"] >= 3:
                break
        fl = noc.flits("a", 512)
        n["vc_buf"] = max(n["vc_buf"], fl)
        n["fifo"] = max(fl, rng.choice([8, 16]))
        n["obuf"] = rng.choice([1, 2, 3])
        n["clk"] = noc.rnd_period(rng)
        L = rng.choice([1, 1, 2, 2, 3, 4])
        L = min(L, n["nodes"] - 2)
        mv = [1] * L
        while rng.random() < 0.7:
            k = rng.randrange(L)
            mv[k] += 1
            if sum(mv) + mv[0] + 1 > n["nodes"]:
                mv[k] -= 1
                break
        big = 64 if tier == "quick" else 160
        dims = [rng.choice([1, 15, 16, 17, rng.randint(1, big), rng.randint(1, big)]) for _ in range(L + 1)]
        nv = rng.choice([1, 2, 3, 5, 8])
        stall = rng.choice([0, 0, 30, 90])
        if rng.random() < 0.04:               # more vectors than the queues hold, and a slow reader
            mv = [1]       # one engine: its packets cannot hold each other up in the network
            dims = [rng.choice([1, 15, 16]) for _ in range(len(mv) + 1)]
            nv, stall = rng.choice([1100, 1600, 2600, 3600]), 97
        c = {"noc": n, "mvms": mv, "in": dims[0], "dims": dims[1:], "n": nv, "kind": rng.choice(["small", "mid", "wide", "sparse"]),
                "seed": rng.getrandbits(40), "order": rng.sample(range(n["nodes"]), sum(mv) + mv[0] + 1), "period": noc.rnd_period(rng), "aclk": noc.rnd_period(rng),
                "rst": rng.choice([1, 1, 2, 5]), "gap": rng.choice([0, 0, 3, 20]), "stall": stall, "pseed": rng.getrandbits(30),
                "tool": n["nodes"] == 16 and rng.random() < 0.5 and nv < 1000}
        return c

    def execute(self, case, wd):
        import random
        n = case["noc"]
        full = {"v": "a", "driver": case["period"], "rads": [{"nocs": [n], "aclk": [case["aclk"]], "mclk": [case["period"]]}]}
        os.makedirs(wd + "/sim/noc", exist_ok=True)
        os.makedirs(wd + "/compiler", exist_ok=True)
        kn = noc.knobs_text(full, wd).replace("design_noc_placement 0 x.place", "design_noc_placement 0 mlp.place")
        open(wd + "/sim/radsim_knobs", "w").write(kn)
        open(wd + "/sim/noc/noc0_rad0_config", "w").write(noc.noc_cfg_text(n))
        o = Outcome(tags=["%d layers" % len(case["mvms"]), "%d engines" % sum(case["mvms"]), "compiler" if case["tool"] else case["kind"]], sig=core.h(case))
        mv = case["mvms"]
        if case["tool"]:      # the example's own compiler chooses weights, inputs, expectation and placement
            r = core.run_proc([sys.executable, "-c", "import sys,numpy,runpy; numpy.random.seed(%d); s=sys.argv[1]; sys.argv=sys.argv[1:]; runpy.run_path(s,run_name='__main__')" % (case["seed"] % 2 ** 31),
                               build.REPO + "/rad-sim/example-designs/mlp/compiler/gen_testcase.py", str(len(mv)), str(case["in"])] + [str(x) for x in case["dims"] + mv],
                              cwd=wd + "/compiler", cpu=60)
            if r.rc != 0:
                o.violations.append(V("compiler", "gen_testcase.py ended with %s on a legal shape: %s" % (r.status(), r.err[-300:]), "compiler"))
                return o
            rd = lambda p: [[int(t) for t in l.split()] for l in open(wd + "/compiler/" + p)]
            ins = [rd("input_mifs/inputs_mvm%d.mif" % m) for m in range(mv[0])]
            want = rd("golden_outputs.mif")
            # the compiler's expectation must itself be the product of the weights it wrote
            sh = shapes(case)
            v = [[x for c in range(sh[0][1] // ND) for x in ins[c % mv[0]][t * (sh[0][1] // ND // mv[0]) + c // mv[0]]] for t in range(len(ins[0]) * ND * mv[0] // sh[0][1])]
            for l, (rows, cols) in enumerate(sh):
                w = [[0] * cols for _ in range(rows)]
                for m in range(mv[l]):
                    for d in range(ND):
                        B = rd("weight_mifs/layer%d_mvm%d_dot%d.mif" % (l, m, d))
                        for a, row in enumerate(B):
                            i, j = a // (rows // ND), a % (rows // ND)
                            for e in range(ND):
                                w[j * ND + d][(i * mv[l] + m) * ND + e] = row[e]
                v = [[sum(a * b for a, b in zip(r, x)) for r in w] for x in v]
            mine = [x[k:k + ND] for x in v for k in range(0, len(x), ND)]
            if mine != want:
                o.violations.append(V("golden", "the compiler's golden outputs are not the product of the weights and inputs it wrote", "golden"))
                return o
            want = [[s32(x) for x in r] for r in want]
        else:
            ins, want = write_case(case, wd + "/compiler")
            names = ["layer%d_mvm%d" % (l, m) for l in range(len(mv)) for m in range(mv[l])] + ["input_dispatcher%d" % m for m in range(mv[0])] + ["output_collector"]
            with open(wd + "/mlp.place", "w") as f, open(wd + "/mlp.clks", "w") as g:
                for m, k in zip(names, case["order"]):
                    f.write("%s 0 %d axis\n" % (m, k))
                    g.write("%s 0 0\n" % m)
        rng = random.Random(case["pseed"])
        insts = max(r // ND * c // ND for r, c in shapes(case))
        with open(wd + "/scenario.txt", "w") as f:
            f.write("%d %d\n" % (case["rst"], len(ins)))
            for q in ins:
                f.write("%d\n" % len(q))
                for x in q:
                    f.write("%d %s\n" % (rng.choice([0, 0, 1, case["gap"]]) if case["gap"] else 0, " ".join(map(str, x))))
            ratio = max(n["clk"], case["aclk"], case["period"]) / min(n["clk"], case["aclk"], case["period"])
            f.write("%d %d %d\n" % (case["stall"], case["pseed"], 3000 + int(800 * ratio) + 40 * insts))
        r = core.run_proc([self.bin["exmlp"], wd], cwd=wd, cpu=self.cpu_limit)
        try:
            lines = [x.split() for x in open(wd + "/out.log")]
        except OSError:
            lines = []
        o.evals = len(want)
        if r.timeout:
            o.inconclusive = "time"
            return o
        if r.rc != 0 or not lines or lines[-1][0] != "E":
            o.violations.append(V("crash", "simulation ended with %s: %s" % (r.status(), (r.err + r.out)[-300:])))
            return o
        got = [[int(t) for t in x[2:]] for x in lines if x[0] == "O"]
        for k, (a, b) in enumerate(zip(got, want)):
            if a != b:
                e = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), -1)
                o.violations.append(V("output", "layers %s engines %s: output vector %d of %d differs at lane %d: %s, reference %s" % ([case["in"]] + case["dims"], mv, k, len(want), e, a[e], b[e]), "output"))
                return o
        if int(lines[-1][1]) != sum(map(len, ins)):
            o.violations.append(V("stuck", "only %s of %d input vectors were accepted" % (lines[-1][1], sum(map(len, ins))), "stuck"))
        if len(got) != len(want):
            o.violations.append(V("count", "layers %s engines %s: %d output vectors, reference has %d" % ([case["in"]] + case["dims"], mv, len(got), len(want)), "count"))
            return o
        o.nontrivial = any(r > ND or c > ND for r, c in shapes(case)) or max(mv) > 1 or case["n"] > 1000
        return o

    def shrink(self, case):
        if case["n"] > 1:
            yield dict(case, n=1)
            yield dict(case, n=case["n"] // 2)
            yield dict(case, n=case["n"] - case["n"] // 8)
            yield dict(case, n=case["n"] - 1)
        L = len(case["mvms"])
        if L > 1:
            yield dict(case, mvms=case["mvms"][:-1], dims=case["dims"][:-1])
            yield dict(case, mvms=case["mvms"][1:], dims=case["dims"][1:], order=case["order"][:2] + case["order"][2:])
        for i in range(L):
            if case["mvms"][i] > 1:
                yield core.setp(case, ["mvms", i], case["mvms"][i] - 1)
            if case["dims"][i] > 1:
                yield core.setp(case, ["dims", i], max(1, case["dims"][i] - 16))
        if case["in"] > 1:
            yield dict(case, **{"in": max(1, case["in"] - 16)})
        for k, v in (("gap", 0), ("stall", 0), ("rst", 1), ("kind", "small"), ("tool", False)):
            if case[k] != v:
                yield core.setp(case, [k], v)


CHECK = E02()
