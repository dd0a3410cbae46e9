"""E07: the NPU overlay example runs VLIW programs as the instruction set's reference model says, for every thread and core."""
import os, random
import core, noc, build
from core import Check, Outcome, V

P = build.NPU
T, DPES, LANES, TH, CORES = P["TILES"], P["SECTORS"] * P["DPES_PER_SECTOR"], P["LANES"], P["THREADS"], 2
assert DPES == LANES
MINW = 6                          # rows in flight need at least this many words of result
DEPTH = 512
SPACES = ["evrf", "add0", "mul0", "add1", "mul1"]
MASK = (1 << 32) - 1


def s32(x):
    x &= MASK
    return x - (1 << 32) if x >> 31 else x


def s8(x):
    x &= 255
    return x - 256 if x >= 128 else x


def wr(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(t)


def values(rng, kind, n):
    if kind == "small":
        return [rng.randint(-2, 1) for _ in range(n)]
    if kind == "wide":
        return [rng.randint(-128, 127) for _ in range(n)]
    return [rng.choice([0, 0, 0, 0, 1, -1, 127, -128]) for _ in range(n)]


def names():
    mods, ports = [], []
    for s in range(P["SECTORS"]):
        ports.append("axis_mvu_sector_%d" % s)
    for t in range(TH):
        for s in range(P["SECTORS"]):
            ports.append(["axis_vector_elementwise_%d.%s_interface_%d" % (t, u, s) for u in ("evrf_inst", "evrf_ififo", "mfu0_inst", "mfu1_inst")])
        ports.append(["axis_vector_elementwise_%d.loader_%s_interface" % (t, u) for u in ("inst", "wb0")])
        ports.append("axis_inst_dispatcher_%d" % t)
    return [[p] if isinstance(p, str) else p for p in ports]


PORTS = names()


def gen_program(rng, tier):
    """operations over vectors of three batches: loads and chains; every operand was written before"""
    ops, k = [], rng.choice([1, 1, 1, 2, 2, 3, 5])
    mats = []
    mvu, vec = [], {s: [] for s in SPACES}     # bases written so far: mvu [base]; others [(base, words)]
    nxt = {s: rng.choice([0, 0, 7, 300]) for s in SPACES + ["mvu"]}
    scatter = rng.random() < 0.4

    def bases(space, n):
        """three places of n words"""
        b = nxt[space]
        gap = rng.randint(0, 3) if scatter else 0
        if b + 3 * (n + gap) > DEPTH - 1:
            nxt[space] = b = 0
        nxt[space] = b + 3 * (n + gap)
        r = [b + i * (n + gap) for i in range(3)]
        if scatter:
            rng.shuffle(r)
        return r

    def over(space, b, n):
        """vectors the new one overlaps are gone"""
        if space == "mvu":
            mvu[:] = [o for o in mvu if all(abs(x - y) >= k for x in o for y in b)]
        else:
            vec[space] = [o for o in vec[space] if all(x + o[1] <= y or y + n <= x for x in o[0] for y in b)]

    def dest(space, n):
        old = mvu if space == "mvu" else [o[0] for o in vec[space] if o[1] == n]
        b = rng.choice(old) if old and rng.random() < 0.3 else bases(space, n)
        return list(b)

    nmat = rng.choice([0, 1, 1, 2])
    at = 0
    for _ in range(nmat):
        w = rng.choice([MINW, MINW, MINW + 1, rng.randint(MINW, 12)])
        if at + w * k > 1000:
            break
        mats.append([at, w])
        at += w * k + rng.choice([0, 0, 5])
    n = rng.randint(1, 9 if tier == "quick" else 30)
    nin = 0
    for i in range(400):
        if len([o for o in ops if o["op"] == "chain"]) >= n:
            break
        chain = rng.random() < 0.6 and ((mvu and mats) or vec["evrf"])
        if not chain:
            s = "mvu" if mats and (not mvu or rng.random() < 0.25) else rng.choice(SPACES)
            m = k if s == "mvu" else rng.choice([mats[0][1] if mats else 3, rng.randint(1, 9)])
            if nin + m * 3 * (T if s == "mvu" else 1) > (400 if tier == "quick" else 1500):
                break
            nin += m * 3 * (T if s == "mvu" else 1)
            b = dest(s, m)
            over(s, b, m)
            (mvu.append(b) if s == "mvu" else vec[s].append((b, m)))
            ops.append({"op": "load", "to": s, "b": b, "n": m, "out": int(s != "mvu" and rng.random() < 0.15)})
            continue
        o = {"op": "chain", "mat": None, "src": None, "mfu": []}
        if mvu and mats and (not vec["evrf"] or rng.random() < 0.6):
            o["mat"] = rng.randrange(len(mats))
            o["src"], m = list(rng.choice(mvu)), mats[o["mat"]][1]
        else:
            b, m = rng.choice(vec["evrf"])
            o["src"] = list(b)
        o["n"] = m
        read = {("mvu" if o["mat"] is not None else "evrf"): [o["src"]]}
        for j in (0, 1):
            u = {"act": rng.choice([0, 0, 1, 2, 3]), "add": 0, "a": [0] * 3, "mul": 0, "m": [0] * 3}
            c = [v for v in vec["add%d" % j] if v[1] >= m]
            if c and rng.random() < 0.7:
                u["add"], u["a"] = rng.choice([1, 1, 2, 3, 4]), list(rng.choice(c)[0])
                read["add%d" % j] = [u["a"]]
            c = [v for v in vec["mul%d" % j] if v[1] >= m]
            if c and rng.random() < 0.6:
                u["mul"], u["m"] = 1, list(rng.choice(c)[0])
                read["mul%d" % j] = [u["m"]]
            o["mfu"].append(u)
        o["out"] = int(rng.random() < 0.5)
        # results never go to words the same chain reads
        def place(s, n):
            for _ in range(20):
                b = dest(s, n)
                if all(x + max(m, n) <= y or y + max(m, n) <= x for r in read.get(s, []) for x in r for y in b):
                    return b
            return None
        to = []
        kind = rng.choice(["mvu", "one", "one", "two", "both"]) if mats else rng.choice(["one", "one", "two"])
        if kind in ("mvu", "both"):
            b = place("mvu", k)
            if b is None:
                continue
            to.append(["mvu", b])
            if kind == "both":
                s = rng.choice(SPACES[1:])
                b = place(s, m)
                if b is None:
                    continue
                to.append([s, b])
        elif kind == "one":
            s = rng.choice(SPACES)
            b = place(s, m)
            if b is None:
                continue
            to.append([s, b])
        else:
            j = rng.choice([0, 1])
            b = place("add%d" % j, m)
            if b is None or any(x + m > y and y + m > x for r in read.get("mul%d" % j, []) for x in r for y in b):
                continue
            to += [["add%d" % j, b], ["mul%d" % j, b]]
        for s, b in to:
            q = m if kind != "both" or s == "mvu" else min(m, T * k)
            over(s, b, k if s == "mvu" else q)
            (mvu.append(b) if s == "mvu" else vec[s].append((b, q)))
        o["to"] = to
        ops.append(o)
    if not any(o["op"] == "load" for o in ops) or not any(o["out"] for o in ops):
        return gen_program(rng, tier)
    return {"k": k, "mats": mats, "ops": ops}


def nout(p):
    """output words of one thread and core"""
    return sum(3 * (min(o["n"], T * p["k"]) if o["op"] == "chain" and o["to"][0][0] == "mvu" else o["n"]) for o in p["ops"] if o["out"])


def sane(p):
    """every word a chain reads was written before (shrinking keeps that), and something comes out"""
    have, k = set(), p["k"]
    if not any(o["out"] for o in p["ops"]) or p["ops"][0]["op"] != "load":
        return False
    for o in p["ops"]:
        if o["op"] == "load":
            for b in o["b"]:
                have |= {(o["to"], b + i) for i in range(o["n"])}
            continue
        need = {("mvu" if o["mat"] is not None else "evrf", b + i) for b in o["src"] for i in range(k if o["mat"] is not None else o["n"])}
        for j, u in enumerate(o["mfu"]):
            if u["add"]:
                need |= {("add%d" % j, b + i) for b in u["a"] for i in range(o["n"])}
            if u["mul"]:
                need |= {("mul%d" % j, b + i) for b in u["m"] for i in range(o["n"])}
        if not need <= have:
            return False
        for s, b in o["to"]:
            q = k if s == "mvu" else min(o["n"], T * k) if o["to"][0][0] == "mvu" else o["n"]
            have |= {(s, x + i) for x in b for i in range(q)}
    return True


def code(p):
    """the program as lines of register_files/instructions.txt"""
    k, out, wb, last = p["k"], [], 0, {}
    ids = dict((s, T + i) for i, s in enumerate(SPACES))
    NOP = ["0 0 0 0 0 0 0 0 0", "0 0 0 0 0 0 3 0", "0 0 0 0 0 0 0 0 0 0 0 3 0", "0 0 0 0 0 0 0 0 0 0 0 3 0"]
    b3 = lambda b: " ".join(map(str, b))

    def ld(src, size, d0, b0, d1, b1, o):
        return "1 %d %d %d %d %s %d %d %s 3 %d" % (src, size, d0 is not None, d0 or 0, b3(b0), d1 is not None, d1 or 0, b3(b1), o)

    def mark(s, b, n):
        for x in b:
            for i in range(n):
                last[s, x + i] = wb

    tag = lambda s, b, n: max(last.get((s, x + i), 0) for x in b for i in range(n))
    for o in p["ops"]:
        Z = [0, 0, 0]
        if o["op"] == "load":
            for t in (range(T) if o["to"] == "mvu" else [None]):
                out += NOP + [ld(0, o["n"], ids.get(o["to"], t), o["b"], None, Z, o["out"])]
                wb += 1
            mark(o["to"], o["b"], o["n"])
            continue
        m = o["n"]
        if o["mat"] is not None:
            base, w = p["mats"][o["mat"]]
            tg = tag("mvu", o["src"], k)
            lines = ["1 %s %d %d %d %d %d" % (b3(o["src"]), k, base, k * w, w, tg), "1 0 0 0 0 %d 3 %d" % (m, tg)]
        else:
            lines = [NOP[0], "1 1 %s %d 3 %d" % (b3(o["src"]), m, tag("evrf", o["src"], m))]
        for j, u in enumerate(o["mfu"]):
            tg = max([tag("add%d" % j, u["a"], m)] * bool(u["add"]) + [tag("mul%d" % j, u["m"], m)] * bool(u["mul"]) + [0])
            lines.append("1 %d %d %d %s %d %s 3 %d" % (m, u["act"], u["add"], b3(u["a"]), u["mul"], b3(u["m"]), tg))
        to = o["to"]
        if to[0][0] == "mvu":
            out += lines + ["0 0 0 0 0 0 0 0 0 0 0 0 0 3 0"]
            left = m
            for t in range(T):
                q = min(k, left)
                if q <= 0:
                    break
                d1 = ids[to[1][0]] if len(to) > 1 else None
                out += NOP + [ld(1, q, t, to[0][1], d1, [x + t * k for x in to[1][1]] if d1 else Z, o["out"])]
                wb += 1
                left -= q
            if left > 0:
                out += NOP + ["1 1 %d 0 0 0 0 0 0 0 0 0 0 3 0" % left]
                wb += 1
        else:
            out += lines + [ld(1, m, ids[to[0][0]], to[0][1], ids[to[1][0]] if len(to) > 1 else None, to[1][1] if len(to) > 1 else Z, o["out"])]
            wb += 1
        for s, b in to:
            mark(s, b, k if s == "mvu" else m)
    return out


def model(p, mats, words):
    """outputs of one thread and core fed with the words"""
    k, out, at = p["k"], [], 0
    mem = {}
    z = [0] * LANES
    for o in p["ops"]:
        n = o["n"]
        if o["op"] == "load":
            for t in (range(T) if o["to"] == "mvu" else [None]):
                for i in range(n):
                    for b in range(3):
                        mem[o["to"], t, o["b"][b] + i] = words[at]
                        if o["out"]:
                            out.append(words[at])
                        at += 1
            continue
        res = []
        for b in range(3):
            if o["mat"] is not None:
                x = [e for t in range(T) for i in range(k) for e in mem.get(("mvu", t, o["src"][b] + i), z)]
                y = [sum(map(int.__mul__, r, x)) for r in mats[o["mat"]]]
                v = [[s32(e) for e in y[i * LANES:(i + 1) * LANES]] for i in range(n)]
            else:
                v = [mem["evrf", None, o["src"][b] + i] for i in range(n)]
            for j, u in enumerate(o["mfu"]):
                for i in range(n):
                    w = v[i]
                    if u["add"]:
                        a = mem["add%d" % j, None, u["a"][b] + i]
                        w = [[s32(x + y), s32(x - y), s32(y - x), max(x, y)][u["add"] - 1] for x, y in zip(w, a)]
                    if u["mul"]:
                        a = mem["mul%d" % j, None, u["m"][b] + i]
                        w = [s32(x * y) for x, y in zip(w, a)]
                    v[i] = w
            res.append(v)
        keep = min(n, T * k) if o["to"][0][0] == "mvu" else n
        for i in range(keep):
            for b in range(3):
                if o["out"]:
                    out.append(res[b][i])
                for s, d in o["to"]:
                    if s == "mvu":
                        mem[s, i // k, d[b] + i % k] = [s8(e) for e in res[b][i]]
                    else:
                        mem[s, None, d[b] + i] = res[b][i]
    return out


class E07(Check):
    prop = "E07"
    targets = ["exnpu"]
    technique = "property-based testing: generated VLIW programs (loads, matrix-vector products, element-wise chains, write-backs with dependences between them), weights, inputs, pacing, networks and placements through the unmodified NPU example (header scaled down as its compiler does), outputs of every thread and core compared with a reference model of the instruction set"
    rule = "some chain reads what an earlier chain wrote back or multiplies with a matrix, and all outputs of all threads and cores were observed"
    quick_n = 44
    thorough_n = 2500
    cpu_limit = 150
    assumptions = ["overlay of %d tiles, %d sectors of %d engines, %d lanes, %d threads, two cores, batches of three; mesh networks of at least 16 nodes with one virtual channel of its own for every packet class, as in the design's config.yml" % (T, P["SECTORS"], P["DPES_PER_SECTOR"], LANES, TH),
                   "programs as the compiler emits them: operands written before they are read, tags that name the last writer, at least 6 result words per product, no write-back into a vector the same chain reads"]

    def gen(self, rng, i, tier):
        while True:
            n = noc.rnd_noc(rng, "a", topo="mesh")
            if all(b == e for b, e in n["cls"]) and len({b for b, _ in n["cls"]}) == len(n["cls"]) and n["nodes"] >= len(PORTS):
                break
        fl = noc.flits("a", 512)
        n["vc_buf"] = max(n["vc_buf"], fl)
        n["fifo"] = max(fl, rng.choice([8, 16]))
        n["obuf"] = rng.choice([2, 2, 3])
        period = noc.rnd_period(rng)
        n["clk"] = min(noc.rnd_period(rng), period)
        c = {"noc": n, "period": period, "aclk": min(noc.rnd_period(rng), period), "p2": rng.choice([period, period / 2]),
             "prog": gen_program(rng, tier), "seed": rng.getrandbits(40), "kind": rng.choice(["small", "wide", "wide", "sparse"]),
             "order": rng.sample(range(n["nodes"]), len(PORTS)), "rst": rng.choice([1, 2, 5]), "igap": rng.choice([0, 0, 30]),
             "sdelay": rng.choice([0, 1, 10]), "inp": rng.choice([100, 100, 60, 10]), "istart": rng.choice([0, 0, 500]),
             "stall": rng.choice([0, 0, 30, 90]), "ostart": rng.choice([0, 0, 0, 1000]), "same": rng.random() < 0.15}
        return c

    def execute(self, case, wd):
        n, p = case["noc"], case["prog"]
        full = {"v": "a", "driver": case["period"], "rads": [{"nocs": [n], "aclk": [case["aclk"]], "mclk": [case["period"], case["p2"]]}]}
        wr(wd + "/sim/radsim_knobs", noc.knobs_text(full, wd).replace("design_noc_placement 0 x.place", "design_noc_placement 0 npu.place"))
        wr(wd + "/sim/noc/noc0_rad0_config", noc.noc_cfg_text(n))
        wr(wd + "/npu.place", "".join("%s 0 %d axis\n" % (x, node) for ports, node in zip(PORTS, case["order"]) for x in ports))
        wr(wd + "/npu.clks", "".join("axis_mvu_sector_%d 0 1\n" % s for s in range(P["SECTORS"])) + "".join("axis_vector_elementwise_%d 0 0\naxis_inst_dispatcher_%d 0 0\n" % (t, t) for t in range(TH)))
        rng = random.Random(case["seed"])
        cols = T * p["k"] * LANES
        mats = [[values(rng, case["kind"], cols) for _ in range(w * LANES)] for _, w in p["mats"]]
        mrf = {}
        for (base, w), m in zip(p["mats"], mats):
            for y, row in enumerate(m):
                for t in range(T):
                    for j in range(p["k"]):
                        mrf[t, y % DPES, base + y // DPES * p["k"] + j] = row[(t * p["k"] + j) * LANES:(t * p["k"] + j + 1) * LANES]
        top = 1 + max([a for _, _, a in mrf] or [0])
        zero = " ".join(["0"] * LANES)
        for t in range(T):
            for d in range(DPES):
                wr(wd + "/register_files/mrf_tile_%d_dpe_%d.txt" % (t, d), "".join((" ".join(map(str, mrf[t, d, a])) if (t, d, a) in mrf else zero) + " \n" for a in range(top)))
        ins = code(p)
        wr(wd + "/register_files/instructions.txt", "\n".join(ins) + "\n")
        nin = sum(3 * o["n"] * (T if o["to"] == "mvu" else 1) for o in p["ops"] if o["op"] == "load")
        X = [[[values(rng, case["kind"], LANES) for _ in range(CORES)] for _ in range(nin)] for _ in range(TH)]
        if case["same"]:
            X = [X[0]] * TH
        want = [[model(p, mats, [x[c] for x in X[t]]) for c in range(CORES)] for t in range(TH)]
        total = len(want[0][0])
        ratio = max(n["clk"], case["aclk"], case["period"]) / case["period"]
        ninst = len(ins) // 5
        work = sum(o["n"] * 3 * (p["k"] if o.get("mat") is not None else 1) for o in p["ops"] if o["op"] == "chain")
        lim = 3000 + int(ratio * (400 * ninst + 60 * work))
        wr(wd + "/scenario.txt", "%d %d %d %d %d %d %d %d\n%d %d %d %d\n" % (case["rst"], case["igap"], case["sdelay"], case["inp"], case["istart"], case["stall"], case["ostart"], case["seed"] % 2 ** 31, lim, total, 300 + int(100 * ratio), nin)
           + "".join(" ".join(map(str, w)) + "\n" for t in X for x in t for w in x))
        r = core.run_proc([self.bin["exnpu"], wd], cwd=wd, cpu=self.cpu_limit)
        kinds = sorted({"product" if o.get("mat") is not None else o["op"] for o in p["ops"]})
        o = Outcome(tags=kinds + [case["kind"]], sig=core.h(case))
        o.evals = total * TH * CORES
        try:
            lines = [x.split() for x in open(wd + "/out.log")]
        except OSError:
            lines = []
        if r.timeout:
            o.inconclusive = "time"
            return o
        what = "program of %d instructions" % ninst
        if r.rc != 0 or not lines or lines[-1][0] != "E":
            o.violations.append(V("crash", "%s: simulation ended with %s: %s" % (what, r.status(), (r.err + r.out)[-300:])))
            return o
        got = [[[] for _ in range(CORES)] for _ in range(TH)]
        for x in lines[:-1]:
            got[int(x[1])][int(x[2])].append([int(e) for e in x[3:]])
        for t in range(TH):
            for c in range(CORES):
                for i, (a, b) in enumerate(zip(got[t][c], want[t][c])):
                    if a != b:
                        e = next((j for j, (q, w) in enumerate(zip(a, b)) if q != w), -1)
                        o.violations.append(V("output", "%s: thread %d core %d: output word %d of %d differs at lane %d: %d, reference %d" % (what, t, c, i, total, e, a[e], b[e]), "output"))
                        return o
        if int(lines[-1][1]) != nin * TH:
            o.violations.append(V("stuck", "%s: only %s of %d input words were accepted" % (what, lines[-1][1], nin * TH), "stuck"))
        if any(len(g) != total for q in got for g in q):
            o.violations.append(V("count", "%s: output words %s, reference has %d" % (what, [[len(g) for g in q] for q in got], total), "count"))
        o.nontrivial = "product" in kinds or sum(x["op"] == "chain" for x in p["ops"]) > 1
        return o

    def shrink(self, case):
        ops = case["prog"]["ops"]
        for i in range(len(ops) - 1, -1, -1):
            c = core.setp(case, ["prog", "ops"], ops[:i] + ops[i + 1:])
            if sane(c["prog"]):
                yield c
        for i, o in enumerate(ops):
            for j, u in enumerate(o.get("mfu", [])):
                for f in ("act", "add", "mul"):
                    if u[f]:
                        yield core.setp(case, ["prog", "ops", i, "mfu", j, f], 0)
            if len(o.get("to", [])) > 1 and isinstance(o["to"], list):
                c = core.setp(case, ["prog", "ops", i, "to"], o["to"][:1])
                if sane(c["prog"]):
                    yield c
        for k, v in (("kind", "small"), ("igap", 0), ("sdelay", 0), ("inp", 100), ("istart", 0), ("stall", 0), ("ostart", 0), ("rst", 1), ("same", False)):
            if case[k] != v:
                yield core.setp(case, [k], v)


CHECK = E07()
