"""E04: the int8 MLP example (SystemC and Verilog engines alike) computes the reference chain of products mod 256."""
import math, os, random, sys
import core, noc, build
from core import Check, Outcome, V

ND = 64


def s8(x):
    x %= 256
    return x - 256 if x >= 128 else x


def up(n, k):
    return -(-n // (ND * k)) * ND * k


def total(m):
    return m[0] + m[1]


def shapes(case):
    """[(rows, columns)] of the padded weight matrix of each layer"""
    mv, dims = [total(m) for m in case["mvms"]], [case["in"]] + case["dims"]
    return [(up(dims[l + 1], mv[l + 1] if l + 1 < len(mv) else 1), up(dims[l], mv[l])) for l in range(len(mv))]


def legal(case):
    for (r, c), m in zip(shapes(case), case["mvms"]):
        k = r // ND * c // ND // total(m)
        if k > 500 or (m[0] and k > 56):     # instruction and weight memories of an engine
            return False
    return True


def values(rng, kind, n):
    if kind == "small":
        return [rng.randint(-2, 1) for _ in range(n)]
    if kind == "wide":
        return [rng.randint(-128, 127) for _ in range(n)]
    if kind == "sparse":
        return [rng.choice([0, 0, 0, 0, 0, 0, 1, -1, 127, -128]) for _ in range(n)]
    return [rng.randint(-12, 12) for _ in range(n)]


def names(mv):
    return ["layer%d_mvm%d" % (l, m) for l in range(len(mv)) for m in range(mv[l])] + ["input_dispatcher%d" % m for m in range(mv[0])] + ["output_collector", "weight_loader", "inst_loader"]


def program(case):
    """weights, instructions, inputs and outputs as gen_testcase.py makes them, for weights and inputs drawn from the case's seed"""
    rng = random.Random(case["seed"])
    dims = [case["in"]] + case["dims"]
    mv, sh = [total(m) for m in case["mvms"]], shapes(case)
    L = len(mv)
    node = dict(zip(names(mv), case["order"]))
    W = [[values(rng, case["kind"], dims[l]) for _ in range(dims[l + 1])] for l in range(L)]
    X = [values(rng, case["kind"], case["in"]) for _ in range(case["n"])]
    wts, ins = [], []
    for l in range(L):
        rows, cols = sh[l]
        w = [r + [0] * (cols - len(r)) for r in W[l]] + [[0] * cols for _ in range(rows - len(W[l]))]
        limy = rows // ND
        for m in range(mv[l]):
            blocks = list(range(m, cols // ND, mv[l]))
            for d in range(ND):
                for i, b in enumerate(blocks):
                    for j in range(limy):
                        wts.append((l, m, d, i * limy + j, w[j * ND + d][b * ND:(b + 1) * ND]))
            for i in range(len(blocks)):
                for j in range(limy):
                    last = m == mv[l] - 1
                    to = "output_collector" if last and l == L - 1 else "layer%d_mvm%d" % ((l + 1, j % mv[l + 1]) if last else (l, m + 1))
                    ins.append((l, m, int(last), node[to], i * limy + j, j, int(j == limy - 1), int(i == len(blocks) - 1), int(i > 0), int(m > 0 and i == len(blocks) - 1)))
    inp = [[] for _ in range(mv[0])]
    want = []
    for x in X:
        v = x + [0] * (sh[0][1] - len(x))
        for c in range(len(v) // ND):
            inp[c % mv[0]].append(v[c * ND:(c + 1) * ND])
        v = x
        for w in W:
            v = [s8(sum(a * b for a, b in zip(r, v))) for r in w]
        v = v + [0] * (sh[-1][0] - len(v))
        want += [v[i:i + ND] for i in range(0, len(v), ND)]
    return wts, ins, inp, want


def mifs(cd, mv):
    """the same, read back from the files the compiler wrote"""
    rd = lambda p: [[int(t) for t in x.split()] for x in open(cd + "/" + p)]
    wts, ins = [], []
    for l in range(len(mv)):
        for m in range(mv[l]):
            for d in range(ND):
                for a, w in enumerate(rd("weight_mifs/layer%d_mvm%d_dot%d.mif" % (l, m, d))):
                    wts.append((l, m, d, a, w))
            ins += [tuple([l, m] + x) for x in rd("inst_mifs/layer%d_mvm%d.mif" % (l, m))]
    return wts, ins, [rd("input_mifs/inputs_mvm%d.mif" % m) for m in range(mv[0])], rd("golden_outputs.mif")


def wr(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(t)


class E04(Check):
    prop = "E04"
    targets = ["exmlp8"]
    technique = "property-based testing: generated layer shapes, mixes of SystemC and Verilog engines, weights, inputs, load orders, pacing, networks and placements through the unmodified int8 MLP example, its compiler and its driver, outputs compared with a reference matrix-vector chain mod 256; planted mismatches against the driver's verdict"
    rule = "at least one weight matrix has more than one block or is split over engines, or more vectors than an engine's input queue holds, and all outputs (or the driver's verdict on them) were observed"
    quick_n = 48
    thorough_n = 1500
    cpu_limit = 150
    assumptions = ["at most 16 nodes; per engine at most 56 instructions (SystemC) or 500 (Verilog); where several engines share a layer, few enough vectors not to fill their FIFOs; one virtual channel per class; bench and modules share a clock period",
                   "weights and instructions have arrived before the first input (the driver waits 10000 cycles for that)"]

    def gen(self, rng, i, tier):
        while True:
            n = noc.rnd_noc(rng, "a", topo="mesh")
            if all(b == e for b, e in n["cls"]) and n["nodes"] >= 5:
                break
        fl = noc.flits("a", 512)
        n["vc_buf"] = max(n["vc_buf"], fl)
        n["fifo"] = max(fl, rng.choice([8, 16]))
        n["obuf"] = rng.choice([1, 2, 3])
        n["clk"] = noc.rnd_period(rng)
        flavour = rng.choice(["sysc", "rtl", "mix", "mix"])
        one = lambda: {"sysc": [1, 0], "rtl": [0, 1], "mix": rng.choice([[1, 0], [0, 1]])}[flavour]
        while True:
            L = rng.choice([1, 1, 1, 2, 2, 3])
            mv = [one() for _ in range(L)]
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                k = rng.randrange(L)
                o = one()
                mv[k] = [mv[k][0] + o[0], mv[k][1] + o[1]]
            if sum(map(total, mv)) + total(mv[0]) + 3 <= n["nodes"] and sum(m[0] for m in mv) <= (2 if tier == "quick" else 4):
                break
        big = 200 if tier == "quick" else 500
        nv = rng.choice([1, 2, 3, 5, 9])
        stall = rng.choice([0, 0, 30, 90])
        fill = i % 6 == 2
        c = {"noc": n, "mvms": mv}
        while True:
            dims = [rng.choice([1, 63, 64, 65, 128, rng.randint(1, big), rng.randint(1, big)]) for _ in range(L + 1)]
            if fill:          # more vectors than the queues hold, and a reader that starts late
                c["mvms"] = mv = mv[:1] if max(mv[0]) == 1 and sum(mv[0]) == 1 else [rng.choice([[1, 0], [0, 1], [0, 1]])]
                dims = [rng.choice([1, 64, 100]), rng.choice([1, 64, 200, 256])]
                nv, stall = rng.randint(140, 330), rng.choice([97, 4000, 9000, 0])
            if i % 6 == 4:    # column blocks follow each other without a pause
                dims[0] = rng.choice([128, 192, 256, rng.randint(65, 320)]) * total(mv[0])
            c["in"], c["dims"] = dims[0], dims[1:]
            if legal(c) and sum(r * k for r, k in shapes(c)) <= (40 if tier == "quick" else 160) * ND * ND:
                break
        c.update({"n": nv, "kind": rng.choice(["small", "mid", "wide", "sparse"]), "seed": rng.getrandbits(40),
                  "order": rng.sample(range(n["nodes"]), sum(map(total, mv)) + total(mv[0]) + 3), "period": noc.rnd_period(rng), "aclk": noc.rnd_period(rng),
                  "rst": rng.choice([1, 1, 2, 5]), "gap": rng.choice([0, 0, 3, 20]), "stall": stall, "pseed": rng.getrandbits(30),
                  "shuffle": rng.random() < 0.5, "twice": rng.random() < 0.3, "tool": n["nodes"] == 16 and not fill and rng.random() < 0.5, "mode": "bench", "spoil": None})
        if i % 12 == 7:    # a program and weights that use most of an engine's memories; only some lanes are loaded and judged
            c["mvms"] = [[0, 1]]
            a = rng.randint(1, 23)
            b = rng.randint(max(1, 257 // a), 500 // a)
            c["in"], c["dims"], c["order"] = ND * a - rng.choice([0, 5]), [ND * b - rng.choice([0, 5])], c["order"][:5]
            c.update(n=rng.choice([1, 2]), tool=False, lanes=sorted(rng.sample(range(ND), 3)))
        n["clk"], c["aclk"] = min(n["clk"], 2.5 * c["period"]), min(c["aclk"], 2.5 * c["period"])
        if i % 6 == 4:
            c["gap"] = 0
            n["clk"] = c["aclk"] = c["period"] / 8
            n["va"] = n["sa"] = n["rd"] = 1
            c["n"] = max(c["n"], 4)
        if i % 6 == 5:
            c["mode"] = "driver"
            n["clk"], c["aclk"] = min(n["clk"], 1.3 * c["period"]), min(c["aclk"], 1.3 * c["period"])
            c["spoil"] = [rng.random(), rng.random(), rng.choice([1, -1, 100, 128])] if rng.random() < 0.7 else None
        return c

    def execute(self, case, wd):
        n = case["noc"]
        mv = [total(m) for m in case["mvms"]]
        cd = wd + "/compiler"
        full = {"v": "a", "driver": case["period"], "rads": [{"nocs": [n], "aclk": [case["aclk"]], "mclk": [case["period"]]}]}
        os.makedirs(cd, exist_ok=True)
        wr(wd + "/sim/radsim_knobs", noc.knobs_text(full, wd).replace("design_noc_placement 0 x.place", "design_noc_placement 0 mlp.place"))
        wr(wd + "/sim/noc/noc0_rad0_config", noc.noc_cfg_text(n))
        o = Outcome(tags=["%d layers" % len(mv), "%d SystemC engines" % sum(m[0] for m in case["mvms"]), "%d Verilog engines" % sum(m[1] for m in case["mvms"]), case["mode"], "compiler" if case["tool"] else case["kind"]], sig=core.h(case))
        what = "layers %s engines %s" % ([case["in"]] + case["dims"], case["mvms"])
        if case["tool"]:      # the example's own compiler chooses weights, inputs, expectation and placement
            r = core.run_proc([sys.executable, "-c", "import sys,numpy,runpy; numpy.random.seed(%d); s=sys.argv[1]; sys.argv=sys.argv[1:]; runpy.run_path(s,run_name='__main__')" % (case["seed"] % 2 ** 31),
                               build.REPO + "/rad-sim/example-designs/mlp_int8/compiler/gen_testcase.py", str(len(mv)), str(case["in"])] + [str(x) for x in case["dims"] + mv],
                              cwd=cd, cpu=60)
            if r.rc != 0:
                o.violations.append(V("compiler", "gen_testcase.py ended with %s on a legal shape: %s" % (r.status(), r.err[-300:]), "compiler"))
                return o
            wts, ins, inp, want = mifs(cd, mv)
            # the compiler's expectation must itself be the product of the weights it wrote
            sh = shapes(case)
            v = [[x for c in range(sh[0][1] // ND) for x in inp[c % mv[0]][t * (sh[0][1] // ND // mv[0]) + c // mv[0]]] for t in range(len(inp[0]) * ND * mv[0] // sh[0][1])]
            for l, (rows, cols) in enumerate(sh):
                w = [[0] * cols for _ in range(rows)]
                for a, m, d, k, x in wts:
                    if a == l:
                        b = (k // (rows // ND) * mv[l] + m) * ND
                        w[k % (rows // ND) * ND + d][b:b + ND] = x
                v = [[s8(sum(a * b for a, b in zip(r, x))) for r in w] for x in v]
            mine = [x[k:k + ND] for x in v for k in range(0, len(x), ND)]
            if mine != want:
                o.violations.append(V("golden", "the compiler's golden outputs are not the product of the weights and inputs it wrote", "golden"))
                return o
        else:
            wts, ins, inp, want = program(case)
            wr(wd + "/mlp.place", "".join("%s 0 %d axis\n" % x for x in zip(names(mv), case["order"])))
            wr(wd + "/mlp.clks", "".join("%s 0 0\n" % x for x in names(mv)))
        wr(cd + "/layer_mvm_config", "%d %s " % (len(mv), " ".join("%d,%d" % tuple(m) for m in case["mvms"])))
        lanes = case.get("lanes")
        if lanes:
            wts = [x for x in wts if x[2] in lanes]
        rng = random.Random(case["pseed"])
        ratio = max(n["clk"], case["aclk"], case["period"]) / case["period"]
        work = len(want) * max(r // ND * c // ND for r, c in shapes(case))
        bad = None
        if case["mode"] == "driver":
            if case["spoil"]:
                sp = case["spoil"]
                bad = (int(sp[0] * len(want)), int(sp[1] * ND))
                want[bad[0]] = list(want[bad[0]])
                want[bad[0]][bad[1]] = s8(want[bad[0]][bad[1]] + sp[2])
            if not case["tool"]:
                out = {}
                for l, m, d, a, x in wts:
                    out.setdefault("weight_mifs/layer%d_mvm%d_dot%d.mif" % (l, m, d), []).append(x)
                for x in ins:
                    out.setdefault("inst_mifs/layer%d_mvm%d.mif" % x[:2], []).append(x[2:])
                for d, q in enumerate(inp):
                    out["input_mifs/inputs_mvm%d.mif" % d] = q
                for p, q in out.items():
                    wr(cd + "/" + p, "".join(" ".join(map(str, x)) + " \n" for x in q))
            wr(cd + "/golden_outputs.mif", "".join(" ".join(map(str, x)) + " \n" for x in want))
            wr(wd + "/scenario.txt", "driver %d\n" % int(case["period"] * (15000 + 40 * ratio * len(wts) + 400 * ratio * (len(want) + sum(map(len, inp))) + 100 * work)))
        else:
            load = list(wts)
            if case["twice"]:       # a weight written again replaces what was there
                load = [x[:4] + ([s8(e + 5) for e in x[4]],) for x in wts[::3]] + load
            if case["shuffle"]:     # per address the order stays
                key = {}
                for k, x in enumerate(load):
                    key[x[:4]] = k
                first = [x for k, x in enumerate(load) if key[x[:4]] != k]
                rest = [x for k, x in enumerate(load) if key[x[:4]] == k]
                rng.shuffle(first)
                rng.shuffle(rest)
                load = first + rest
                qs = {}
                for x in ins:
                    qs.setdefault(x[:2], []).append(x)
                mix = [x[:2] for x in ins]
                rng.shuffle(mix)
                for q in qs.values():
                    q.reverse()
                ins = [qs[k].pop() for k in mix]
            gap = lambda p: rng.choice([0, 0, 1, case["gap"]]) if case["gap"] and rng.random() < p else 0
            t = ["bench %d %d\n%d\n" % (case["rst"], 1500 + int(64 * 120 * ratio), len(load))]
            for x in load:
                t.append("%d %d %d %d %d %s\n" % (gap(0.2), *x[:4], " ".join(map(str, x[4]))))
            t.append("%d\n" % len(ins))
            for x in ins:
                t.append("%d %s\n" % (gap(0.2), " ".join(map(str, x))))
            t.append("%d\n" % len(inp))
            for q in inp:
                t.append("%d\n" % len(q))
                for x in q:
                    t.append("%d %s\n" % (gap(1), " ".join(map(str, x))))
            t.append("%d %d %d %d %d\n" % (case["stall"], case["pseed"], (case["stall"] if case["stall"] > 100 else 0) + 3000 + int(400 * ratio) + 40 * work // len(want), len(want), 300 + int(200 * ratio)))
            wr(wd + "/scenario.txt", "".join(t))
        r = core.run_proc([self.bin["exmlp8"], wd], cwd=wd, cpu=self.cpu_limit)
        try:
            lines = [x.split() for x in open(wd + "/out.log")]
        except OSError:
            lines = []
        o.evals = len(want)
        if r.timeout:
            o.inconclusive = "time"
            return o
        if r.rc != 0 or not lines or lines[-1][0] not in "EX":
            o.violations.append(V("crash", "%s: simulation ended with %s: %s" % (what, r.status(), (r.err + r.out)[-300:])))
            return o
        if case["mode"] == "driver":
            done, code = int(lines[-1][1]), int(lines[-1][2])
            if not done:
                o.violations.append(V("stuck", "%s: the example's driver never finished" % what, "stuck"))
                return o
            said = ("SUCCESS" in r.out) - ("FAILURE" in r.out)
            if said != (-1 if bad else 1) or (code != 0) != bool(bad):
                o.violations.append(V("verdict", "%s: the driver says %s (exit code %d) although %s" % (what, {1: "SUCCESS", -1: "FAILURE"}.get(said, "neither or both"), code,
                                      "the expectation of output %d differs at lane %d" % bad if bad else "all outputs are as expected"), "verdict"))
                return o
        else:
            got = [[int(t) for t in x[2:]] for x in lines if x[0] == "O"]
            if lanes:
                got = [[a[d] for d in lanes] for a in got]
                want = [[b[d] for d in lanes] for b in want]
            for k, (a, b) in enumerate(zip(got, want)):
                if a != b:
                    e = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), -1)
                    o.violations.append(V("output", "%s: output vector %d of %d differs at lane %d: %s, reference %s" % (what, k, len(want), e, a[e], b[e]), "output"))
                    return o
            if lines[-1][3] != "1":
                o.violations.append(V("load", "%s: the loaders stopped accepting weights or instructions" % what, "load"))
                return o
            if int(lines[-1][1]) != sum(map(len, inp)):
                o.violations.append(V("stuck", "%s: only %s of %d input vectors were accepted" % (what, lines[-1][1], sum(map(len, inp))), "stuck"))
            if len(got) != len(want):
                o.violations.append(V("count", "%s: %d output vectors, reference has %d" % (what, len(got), len(want)), "count"))
        o.nontrivial = any(r > ND or c > ND for r, c in shapes(case)) or max(mv) > 1 or case["n"] > 100
        return o

    def shrink(self, case):
        def ok(c):
            return legal(c)
        if case["n"] > 1 and not case["tool"]:
            for k in (1, case["n"] // 2, case["n"] - case["n"] // 8, case["n"] - 1):
                yield dict(case, n=k)
        L = len(case["mvms"])
        if L > 1:
            for c in (dict(case, mvms=case["mvms"][:-1], dims=case["dims"][:-1]), dict(case, mvms=case["mvms"][1:], dims=case["dims"][1:])):
                if ok(c):
                    yield c
        for i in range(L):
            for j in (0, 1):
                if total(case["mvms"][i]) > 1 and case["mvms"][i][j]:
                    c = core.setp(case, ["mvms", i, j], case["mvms"][i][j] - 1)
                    if ok(c):
                        yield c
            if case["dims"][i] > 1:
                yield core.setp(case, ["dims", i], max(1, case["dims"][i] - 64))
        if case["in"] > 1:
            yield dict(case, **{"in": max(1, case["in"] - 64)})
        for k, v in (("gap", 0), ("stall", 0), ("rst", 1), ("kind", "small"), ("tool", False), ("shuffle", False), ("twice", False), ("spoil", None)):
            if case[k] != v:
                yield core.setp(case, [k], v)


CHECK = E04()
