"""E03: the DLRM example computes the reference lookups and network, and its driver's verdict is right."""
import os, random, sys
import core, noc, build, dram
from core import Check, Outcome, V

EL = 32                        # elements of a memory word
MVM_CH = (1, 1, 8, 8)          # memory channels per controller, fixed in the example
DDR = ["DDR4_8Gb_x16_2400", "DDR4_8Gb_x8_2400", "DDR4_4Gb_x16_1866", "DDR3_8Gb_x8_1600", "DDR3_4Gb_x16_1866", "DDR4_8Gb_x16_3200"]
HBM = ["HBM2_8Gb_x128", "HBM2_8Gb_x128", "HBM2_4Gb_x128", "HBM1_4Gb_x128", "HBM_4Gb_x128"]


def words(name):
    dram.stock()
    return int(dram._stock[name]["system"]["channel_size"]) << 14


def s16(x):
    x &= 0xffff
    return x - 0x10000 if x >= 0x8000 else x


def up(n, k, nd):
    return -(-n // (nd * k)) * k * nd


def blocks(case):
    """[(row blocks, column blocks)] of each layer's padded weights"""
    mv, nd = case["mvms"], case["lanes"]
    dims = [case["chunks"] * nd] + case["dims"]
    return [(up(dims[l + 1], mv[l + 1] if l + 1 < len(mv) else mv[0], nd) // nd, up(dims[l], mv[l], nd) // nd) for l in range(len(mv))]


def fits(case):
    return all(r * c // m <= 16384 // case["lanes"] and r * c // m < 2000 and r <= 64 for (r, c), m in zip(blocks(case), case["mvms"]))


def val(rng, kind):
    if kind == "small":
        return rng.randint(-2, 2)
    if kind == "wide":
        return rng.randint(-32768, 32767)
    return rng.choice([0, 0, 1, -1, 32767, -32768, rng.randint(-300, 300)])


def plan(case):
    """lookups, memory contents, instruction steps and the vectors they produce"""
    rng = random.Random(case["seed"])
    kind, nd = case["kind"], case["lanes"]
    mem = {}
    T = case["tables"]                       # [channel, length, entries, base word]
    looks = []
    for _ in range(case["n"]):
        ix = []
        for c, ln, ent, base in T:
            w = rng.randrange(ent) if rng.random() < 0.8 else rng.choice([0, ent - 1])
            ix.append(w)
            if (c, base + w) not in mem:
                # "same": all rows of a table are equal
                mem[c, base + w] = [(ln + 3 * c + e * e) % 50 - 20 for e in range(ln)] if kind == "same" else [val(rng, kind) for _ in range(ln)]
        looks.append(ix)
    # consumption order: any merge of the channels' own orders
    order = []
    if case["merge"]:
        q = {}
        for i, t in enumerate(T):
            q.setdefault(t[0], []).append(i)
        while q:
            c = rng.choice(sorted(q))
            order.append(q[c].pop(0))
            if not q[c]:
                del q[c]
    else:
        order = list(range(len(T)))
    steps, cur, used, fill = [], [], set(), 0
    src = []                                 # per instruction: elements (table, index) or None
    now = []

    def flush():
        nonlocal cur, used, fill, now
        if cur:
            while case["pad"] and fill < nd:
                k = rng.randint(1, nd - fill)
                cur += [0, 0, k - 1, 0]
                fill += k
            steps.append(cur)
            src.append(now + [None] * (nd - len(now)))
        cur, used, fill, now = [], set(), 0, []

    for i in order:
        c, ln = T[i][0], T[i][1]
        if c in used:
            flush()
        parts = [(a, min(ln, a + nd) - 1) for a in range(0, ln, nd)]
        if case["parts"] and rng.random() < 0.5:
            parts = []
            for _ in range(rng.choice([1, 2, 3])):
                a = rng.randrange(ln)
                parts.append((a, rng.randint(a, min(ln, a + nd) - 1)))
        for k, (a, b) in enumerate(parts):
            if fill + b - a + 1 > nd:
                flush()
            last = k == len(parts) - 1
            cur += [c + 1, a, b, int(last)]
            now = now + [None] * (fill - len(now)) + [(i, e) for e in range(a, b + 1)]
            fill += b - a + 1
            if last:
                used.add(c)
        if rng.random() < case["early"]:
            flush()
    flush()
    while len(steps) % case["mvms"][0]:
        steps.append([0, 0, nd - 1, 0])
        src.append([None] * nd)
    case["chunks"] = len(steps)
    X = [[0 if e is None else mem[T[e[0]][0], T[e[0]][3] + ix[e[0]]][e[1]] for s in src for e in s] for ix in looks]
    W = []
    dims = [len(steps) * nd] + case["dims"]
    for l in range(len(case["mvms"])):
        W.append([[val(rng, kind) if rng.random() < case["dens"] else 0 for _ in range(dims[l])] for _ in range(dims[l + 1])])
    return looks, mem, steps, X, W


def chain(X, W, rows, nd):
    out = []
    for x in X:
        v = x
        for w in W:
            v = [s16(sum(a * b for a, b in zip(r, v) if a and b)) for r in w]
        v = v + [0] * (rows - len(v))
        out += [v[i:i + nd] for i in range(0, rows, nd)]
    return out


def wr(p, text):
    with open(p, "w") as f:
        f.write(text)


def write_case(case, cd):
    for d in ("embedding_tables", "instructions", "mvm_weights"):
        os.makedirs(cd + "/" + d, exist_ok=True)
    looks, mem, steps, X, W = plan(case)
    T, mv, nd = case["tables"], case["mvms"], case["lanes"]
    for c in range(18):
        o = []
        for (ch, w), e in mem.items():
            if ch == c:
                o.append("%d %s\n" % (w * 64, "".join(format(x & 0xffff, "016b") for x in reversed(e + [0] * (EL - len(e))))))
        wr(cd + "/embedding_tables/channel_%d.dat" % c, "".join(o))
    wr(cd + "/instructions/feature_interaction.inst", "".join(" ".join(map(str, s)) + " \n" for s in steps))
    L = len(mv)
    for l, (rb, cb) in enumerate(blocks(case)):
        w = [r + [0] * (cb * nd - len(r)) for r in W[l]] + [[0] * (cb * nd) for _ in range(rb * nd - len(W[l]))]
        for m in range(mv[l]):
            bl = list(range(m, cb, mv[l]))
            for d in range(nd):
                wr(cd + "/mvm_weights/layer%d_mvm%d_dot%d.dat" % (l, m, d),
                   "".join(" ".join(map(str, w[j * nd + d][i * nd:(i + 1) * nd])) + " \n" for i in bl for j in range(rb)))
            o = []
            for i in range(len(bl)):
                for j in range(rb):
                    if m == mv[l] - 1:
                        dest = (0, 0) if l == L - 1 else (l + 2, j % mv[l + 1])
                    else:
                        dest = (l + 1, m + 1)
                    o.append("1 0 %d %d %d %d %d %d %d %d\n" % (m > 0 and i == len(bl) - 1, j, i > 0, i == len(bl) - 1, i * rb + j, j == rb - 1, *dest))
            wr(cd + "/instructions/layer%d_mvm%d.inst" % (l, m), "".join(o) + "1 1 0 0 0 0 0 0 0 0\n")
    wr(cd + "/mvms.config", "%d %s " % (L, " ".join(map(str, mv))))
    want = chain(X, W, blocks(case)[-1][0] * nd, nd)
    t = ["%d %d\n" % (len(T), len(looks))]
    lk = []
    for ix in looks:
        a = [x * 64 for x in ix], [x[0] for x in T], [x[3] * 64 for x in T]
        lk.append(a)
        t += [" ".join(map(str, x)) + " \n" for x in a]
    wr(cd + "/embedding_indecies.in", "".join(t))
    wr(cd + "/feature_interaction.out", "%d\n" % (len(steps) * len(looks)) + "".join(" ".join(map(str, x[i:i + nd])) + " \n" for x in X for i in range(0, len(x), nd)))
    wr(cd + "/mlp.out", "%d\n" % len(want) + "".join(" ".join(map(str, r)) + " \n" for r in want))
    return lk, want


def ints(p):
    with open(p) as f:
        return [[int(t) for t in l.split()] for l in f]


def compiled(case, cd):
    """what the files written by the example's own compiler mean, read independently of it"""
    rd = ints(cd + "/embedding_indecies.in")
    looks = [tuple(rd[k:k + 3]) for k in range(1, len(rd) - 2, 3)]
    mem = {}
    for c in range(18):
        for l in open(cd + "/embedding_tables/channel_%d.dat" % c):
            a, b = l.split()
            b = b[-512:]
            mem[c, int(a)] = [s16(int(b[len(b) - 16 * (e + 1):len(b) - 16 * e], 2)) for e in range(EL)]
    return looks, mem


class E03(Check):
    prop = "E03"
    targets = ["exdlrm32", "exdlrm16"]
    design, exe, rads = "dlrm", "exdlrm", 1
    technique = "property-based testing: generated embedding tables, lookups, crossbar programs, networks, memories, placements and pacing through the unmodified DLRM example (and its own compiler and driver), outputs compared with a reference model; planted mismatches against the driver's verdict"
    rule = "at least two lookups on distinct channels and every output vector observed (or the driver's verdict on them)"
    quick_n = 120
    thorough_n = 1500
    cpu_limit = 150
    assumptions = ["16-bit elements; 32 or 16 lanes (the two the compiler supports); models within the engines' memories; no word wider than 32 elements; a crossbar instruction takes at most one word of each channel",
                   "the two-device version is E06's"]

    def gen(self, rng, i, tier):
        while True:
            n = noc.rnd_noc(rng, "d", dims=rng.choice([8, 8, 8, 9, 10]), topo="mesh")
            if all(b == e for b, e in n["cls"]) and len(set(b for b, e in n["cls"])) == 5:
                break
        fl = noc.flits("d", 512)
        n["vc_buf"] = max(n["vc_buf"], fl)
        n["fifo"] = max(fl, rng.choice([8, 16, 16]))
        n["obuf"] = rng.choice([1, 2, 3])
        n["clk"] = rng.choice([1.0, 1.0, 2.0, 1.25])
        c = dict(noc=n, period=rng.choice([5.0, 5.0, 2.0, 1.0, 3.3]), aclk=rng.choice([1.25, 1.25, 1.0, 2.0]), mper=rng.choice([1.5, 5.0, 2.0, 1.0]),
                 ddr=rng.choice(DDR), ddr2=rng.choice(DDR), hbm=rng.choice(HBM), hbm2=rng.choice(HBM), q=rng.choice([64, 64, 17, 24, 200]),
                 seed=rng.getrandbits(40), rst=rng.choice([1, 1, 2, 5]), gap=rng.choice([0, 0, 3, 30]), stall=rng.choice([0, 0, 30, 90]), pseed=rng.getrandbits(30),
                 order=rng.sample(range(n["nodes"]), n["nodes"]))
        c["lanes"] = rng.choice([32, 32, 16])
        c["mode"] = rng.choice(["bench", "bench", "bench", "driver"])
        c["spoil"] = [rng.random(), rng.random(), rng.choice([1, -1, 100])] if c["mode"] == "driver" and rng.random() < 0.7 else None
        if i % 7 == 1:                       # the example's own compiler
            c["tool"] = 1
            c["lanes"] = rng.choice([32, 16, 16])
            lens = []
            while True:
                lens = sorted((rng.choice([4, 4, 8, 8, 16, 32]) for _ in range(rng.choice([3, 8, 20, 47]))), reverse=True)
                if sum(lens) % EL == 0 and len(lens) > 1:
                    break
            ent = {}
            e = rng.choice([2, 10, 100])
            for l in (4, 8, 16, 32):
                ent[l] = e
                e *= rng.choice([1, 2, 5, 50])
            c["model"] = [[l, ent[l]] for l in lens]
            c["n"] = rng.choice([1, 1, 2, 3])
            rng.random() < 0.5 and rng.shuffle(c["model"])
            if len(set(ent.values())) < 4:
                c["model"].sort(key=lambda t: -t[0])
            return c
        c["tool"] = 0
        room = n["nodes"] - 55 - self.rads
        while True:
            L = rng.choice([1, 1, 2, 2, 3])
            mv = [1] * L
            while rng.random() < 0.6 and sum(mv) < min(room, 10):
                mv[rng.randrange(L)] += 1
            tabs, free = [], [0] * 18
            chs = rng.sample(range(18), rng.choice([1, 2, 5, 18, 18]))
            for _ in range(rng.choice([1, 3, 8, 20, 40])):
                ch = rng.choice(chs)
                # words of 64 bytes
                cap = words(c["ddr"] if ch == 0 else c["ddr2"] if ch == 1 else c["hbm"] if ch < 10 else c["hbm2"])
                ent = rng.choice([1, 2, 10, 1000, 100000, 3000000])
                if free[ch] + ent > cap:
                    continue
                if rng.random() < 0.2:
                    free[ch] = rng.randrange(free[ch], cap - ent)
                tabs.append([ch, rng.choice([1, 2, 4, 4, 8, 8, 16, 32, rng.randint(1, 32)]), ent, free[ch]])
                free[ch] += ent
            if not tabs:
                continue
            c.update(mvms=mv, tables=tabs, dims=[rng.choice([1, 31, 32, 33, rng.randint(1, 100), rng.randint(1, 160), rng.choice([rng.randint(1, 100), rng.randint(500, 2048)])]) for _ in range(L)], kind=rng.choice(["small", "wide", "mixed", "same"]),
                     n=rng.choice([1, 2, 5, 12]), merge=rng.random() < 0.3, parts=rng.random() < 0.3, pad=rng.random() < 0.5, early=rng.choice([0, 0, 0.2]),
                     dens=rng.choice([1, 1, 0.1]))
            nd = c["lanes"]
            if i % 9 == 4:                   # the collector, and perhaps the engines, fill up before it is read
                mv = rng.choice([[1], [2], [2], [3], [1, 2]])
                r = rng.choice([6, 12, 20])
                c.update(n=rng.choice([560, 560, 1200, 1200, 1800]) // r, stall=rng.choice([15000, 25000]), dims=[32] * (len(mv) - 1) + [r * nd], mvms=mv, tables=tabs[:rng.choice([1, 2])],
                         gap=0, period=2.0, mper=rng.choice([1.5, 2.0, 1.0]), mode="bench", spoil=None)
            elif i % 9 == 8:                 # many rows
                c.update(n=rng.choice([1, 2, 3]), dims=c["dims"][:-1] + [rng.randint(33, 64) * nd], dens=0.1)
            plan(c)
            # streams share the read requests' class: replies or requests must fit their queues
            m = max(sum(t[0] == ch for t in c["tables"]) for ch in chs) * c["n"]
            if m > 56:
                c["q"] = max(c["q"], m + 24)
            if fits(c) and c["chunks"] * c["n"] < 1500:
                return c

    def files(self, case, wd):
        n = case["noc"]
        dram.stock()
        drams = []
        for name in (case["ddr"], case["ddr2"], case["hbm"], case["hbm2"]):
            c = dram._stock[name]
            drams.append(dict(clk=float(c["timing"]["tCK"]) * int(c["dram_structure"]["BL"]) / 2, q=case["q"], cfg=name))
        full = {"v": "d", "driver": case["period"], "ir": case.get("ir", {}), "rads": self.rads * [{"nocs": [n], "aclk": [case["aclk"]], "mclk": [case["period"], drams[2]["clk"], drams[0]["clk"], case["mper"], drams[1]["clk"], drams[3]["clk"]], "dram": drams}]}
        os.makedirs(wd + "/sim/noc", exist_ok=True)
        os.makedirs(wd + "/compiler", exist_ok=True)
        if not os.path.exists(wd + "/sim/dram"):
            os.symlink(build.SIM + "/dram", wd + "/sim/dram")
        wr(wd + "/sim/radsim_knobs", noc.knobs_text(full, wd).replace(" x.place", " %s.place" % self.design))
        roots = [wd]
        if self.rads > 1:
            roots = [wd + "/r%d" % r for r in range(self.rads)]
            for r in roots:
                os.makedirs(r, exist_ok=True)
                os.symlink(wd + "/compiler", r + "/compiler")
        for r in range(self.rads):
            wr(wd + "/sim/noc/noc0_rad%d_config" % r, noc.noc_cfg_text(n))
        mv = case["mvms"]
        nodes = list(case["order"])
        P, C = [], ["embedding_lookup_inst 0 0", "feature_interaction_inst 0 0", "ext_mem_0 0 2", "ext_mem_1 0 4", "ext_mem_2 0 1", "ext_mem_3 0 5"]
        for k, ch in enumerate(MVM_CH):
            P += ["ext_mem_%d.mem_channel_%d 0 %d aximm" % (k, c, nodes.pop()) for c in range(ch)]
        P += ["embedding_lookup_inst.aximm_req_interface_%d 0 %d aximm" % (c, nodes.pop()) for c in range(18)]
        P += ["feature_interaction_inst.aximm_interface_%d 0 %d aximm" % (c, nodes.pop()) for c in range(18)]
        x = nodes.pop()
        P += ["feature_interaction_inst.axis_interface_%d 0 %d axis" % (m, x) for m in range(mv[0])]
        for l in range(len(mv)):
            for m in range(mv[l]):
                P.append("layer%d_mvm%d 0 %d axis" % (l, m, nodes.pop()))
                C.append("layer%d_mvm%d 0 3" % (l, m))
        P.append("output_collector 0 %d axis" % nodes.pop())
        C.append("output_collector 0 0")
        if self.rads > 1:
            P.append("portal_inst 0 %d axis" % nodes.pop())
            C.append("portal_inst 0 0")
        for r in roots:
            wr(r + "/%s.place" % self.design, "\n".join(P) + "\n")
            wr(r + "/%s.clks" % self.design, "\n".join(C) + "\n")

    def compile(self, case, wd):
        """runs compiler/dlrm.py and checks what it wrote; returns lookups, reference outputs or a violation"""
        cd, nd = wd + "/compiler", case["lanes"]
        os.makedirs(cd, exist_ok=True)
        os.makedirs(wd + "/modules", exist_ok=True)
        wr(cd + "/m.csv", "# elements, entries\n" + "".join("%d,%d\n" % tuple(x) for x in case["model"]))
        r = core.run_proc([sys.executable, "-c", "import sys,numpy,random,runpy; numpy.random.seed(%d); random.seed(%d); s=sys.argv[1]; sys.argv=sys.argv[1:]; runpy.run_path(s,run_name='__main__')" % (case["seed"] % 2 ** 31, case["seed"]),
                           build.REPO + "/rad-sim/example-designs/%s/compiler/dlrm.py" % self.design, "-l", str(nd), "-n", str(case["n"]), "-m", "m.csv"], cwd=cd, cpu=100)
        if r.rc != 0:
            return V("compiler", "dlrm.py ended with %s on a legal model: %s" % (r.status(), r.err[-300:]), "compiler")
        looks, mem = compiled(case, cd)
        mv = [int(t) for t in open(cd + "/mvms.config").read().split()][1:]
        case["mvms"] = mv
        if len(looks) != case["n"] or any(len(x) != len(case["model"]) for l in looks for x in l):
            return V("lookups", "the compiler wrote %d inputs of %s lookups for a model of %d tables" % (len(looks), sorted(set(len(x[0]) for x in looks)), len(case["model"])), "lookups")
        tabs = list(zip(looks[0][1], looks[0][2]))
        if any(list(zip(l[1], l[2])) != tabs for l in looks) or len(set(tabs)) != len(tabs):
            return V("layout", "tables do not have one fixed, distinct place each", "layout")
        # the crossbar program, run on the channels' words in lookup order
        prog = [[tuple(r[k:k + 4]) for k in range(0, len(r) - 3, 4)] for r in ints(cd + "/instructions/feature_interaction.inst")]
        fi = ints(cd + "/feature_interaction.out")
        flat = [e for r in fi[1:] for e in r]          # rows of a memory word's size
        per = sum(l for l, _ in case["model"])
        if len(flat) != per * case["n"] or fi[0][0] != len(fi) - 1:
            return V("feature", "feature_interaction.out holds %d elements for %d inputs of %d" % (len(flat), case["n"], per), "feature")
        X, ext = [], {}
        for k, l in enumerate(looks):
            q = {}
            for i, (ix, ch, b) in enumerate(zip(*l)):
                q.setdefault(ch + 1, []).append((i, mem.get((ch, b + ix))))
            x = []
            for r in prog:
                y = []
                for f, a, b, pop in r:
                    if f == 0:
                        y += [0] * (b - a + 1)
                        continue
                    if not q.get(f) or q[f][0][1] is None:
                        return V("program", "input %d: the crossbar program takes a word from channel %d that no lookup brings or that is not in memory" % (k, f - 1), "program")
                    i, w = q[f][0]
                    ext[i] = max(ext.get(i, 0), b + 1)
                    y += w[a:b + 1]
                    if pop:
                        q[f].pop(0)
                if len(y) > nd:
                    return V("program", "a crossbar instruction makes %d elements" % len(y), "program")
                x += y + [0] * (nd - len(y))
            if any(q.values()):
                return V("program", "input %d: the crossbar program leaves looked-up words behind" % k, "program")
            if x[:per] != flat[k * per:(k + 1) * per] or any(x[per:]):
                return V("feature", "input %d: the crossbar program's result is not the expected interaction output" % k, "feature")
            X.append(x)
        ent = dict(map(tuple, case["model"]))
        if sorted(ext.values()) != sorted(l for l, _ in case["model"]):
            return V("feature", "the interaction output takes %s elements of the tables, the model has %s" % (sorted(ext.values()), sorted(l for l, _ in case["model"])), "feature")
        rows = {}
        for i, (ch, b) in enumerate(tabs):
            rows.setdefault(ch, []).append((b, ent[ext[i]] * 64))
            if any(not 0 <= l[0][i] < ent[ext[i]] * 64 for l in looks):
                return V("layout", "lookup beyond the end of its table", "layout")
        for ch, t in rows.items():
            t.sort()
            if any(a + n > b for (a, n), (b, _) in zip(t, t[1:])):
                return V("layout", "tables overlap on channel %d" % ch, "layout")
        return looks, mem, X

    def execute(self, case, wd):
        o = Outcome(sig=core.h(case))
        cd, nd = wd + "/compiler", case["lanes"]
        case = dict(case)
        if case["tool"]:
            r = self.compile(case, wd)
            if isinstance(r, V):
                o.violations.append(r)
                return o
            looks, mem, X = r
            mv = case["mvms"]
            dims = None
            # weights as written: block a of engine m is column block (a // rows)*engines + m
            v = X
            mo = ints(cd + "/mlp.out")
            for l in range(len(mv)):
                nb = [len(ints(cd + "/mvm_weights/layer%d_mvm%d_dot0.dat" % (l, m))) for m in range(mv[l])]
                inst = ints(cd + "/instructions/layer%d_mvm%d.inst" % (l, 0))
                rb = 1 + max(x[3] for x in inst if not x[1])
                cols = sum(nb) // rb * nd
                w = [[0] * cols for _ in range(rb * nd)]
                for m in range(mv[l]):
                    for d in range(nd):
                        for a, row in enumerate(ints(cd + "/mvm_weights/layer%d_mvm%d_dot%d.dat" % (l, m, d))):
                            c0 = (a // rb * mv[l] + m) * nd
                            w[a % rb * nd + d][c0:c0 + nd] = row
                sp = [[(k, a) for k, a in enumerate(r) if a] for r in w]
                v = [[sum(a * x[k] for k, a in r if k < len(x)) for r in sp] for x in v]
            want = [x[k:k + nd] for x in v for k in range(0, len(x), nd)]
            if mo[0][0] != len(mo) - 1 or mo[1:] != want:
                o.violations.append(V("golden", "mlp.out is not what the embeddings and weights the compiler wrote give", "golden"))
                return o
            if any(abs(e) > 32767 for r in want for e in r):
                o.inconclusive = "range"
                return o
            o.tags.append("compiler")
        else:
            os.makedirs(cd, exist_ok=True)
            looks, want = write_case(case, cd)
            o.tags.append(case["kind"])
        self.files(case, wd)
        mv = case["mvms"]
        o.tags += [case["mode"], "%d layers" % len(mv)]
        n = case["noc"]
        insts = 20 * 4 * 32 if case["tool"] else sum(a * b for a, b in blocks(case))
        if case["mode"] == "driver":
            sp = case["spoil"]
            bad = None
            if sp:
                m = [list(r) for r in want]
                k, e = int(sp[0] * len(m)), int(sp[1] * nd)
                m[k][e] = s16(m[k][e] + sp[2])
                bad = (k, e)
                wr(cd + "/mlp.out", "%d\n" % len(m) + "".join(" ".join(map(str, r)) + " \n" for r in m))
            wr(wd + "/scenario.txt", "driver %d\n" % (100000 + int(case["period"] * (2000 + 30 * insts + 200 * len(want) + 200 * case["n"]))))
        else:
            rng = random.Random(case["pseed"])
            ratio = max(n["clk"], case["aclk"], case["mper"], 4.0) / case["period"]
            t = ["bench %d %d %d %d %d %d %d %d\n" % (case["rst"], len(looks), len(looks[0][0]), case["stall"], case["pseed"], (case["stall"] if case["stall"] > 100 else 0) + 3000 + int(ratio * 3000) + 20 * int(insts * max(1, case["mper"] / case["period"])), len(want), 300 + int(300 * ratio))]
            for l in looks:
                t.append("%d %s\n" % (rng.choice([0, 0, 1, case["gap"]]) if case["gap"] else 0, " ".join(" ".join(map(str, x)) for x in l)))
            wr(wd + "/scenario.txt", "".join(t))
        r = core.run_proc([self.bin["%s%d" % (self.exe, nd)], wd], cwd=wd, cpu=self.cpu_limit)
        try:
            lines = [x.split() for x in open(wd + "/out.log")]
        except OSError:
            lines = []
        o.evals = len(want)
        if r.timeout:
            o.inconclusive = "time"
            return o
        what = "%d tables, engines %s, %d inputs" % (len(looks[0][0]), mv, case["n"])
        if r.rc != 0 or not lines or lines[-1][0] not in "EX":
            o.violations.append(V("crash", "%s: simulation ended with %s: %s" % (what, r.status(), (r.err + r.out)[-300:])))
            return o
        if case["mode"] == "driver":
            done, code = int(lines[-1][1]), int(lines[-1][2])
            if not done:
                o.violations.append(V("stuck", "%s: the example's driver never finished" % what, "stuck"))
                return o
            said = ("PASSED" in r.out) - ("FAILED" in r.out)
            exp = -1 if bad else 1
            if said != exp or (code != 0) != bool(bad):
                o.violations.append(V("verdict", "%s: the driver says %s (exit code %d) although %s" % (what, {1: "PASSED", -1: "FAILED"}.get(said, "neither or both"), code,
                                      "the expectation of output %d differs at element %d" % bad if bad else "all outputs are as expected"), "verdict"))
                return o
        else:
            got = [[int(t) for t in x[2:]] for x in lines if x[0] == "O"]
            for k, (a, b) in enumerate(zip(got, want)):
                if a != b:
                    e = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), -1)
                    o.violations.append(V("output", "%s: output vector %d of %d differs at element %d: %s, reference %s" % (what, k, len(want), e, a[e], b[e]), "output"))
                    return o
            if int(lines[-1][1]) != case["n"]:
                o.violations.append(V("stuck", "%s: only %s inputs were accepted" % (what, lines[-1][1]), "stuck"))
            if len(got) != len(want):
                o.violations.append(V("count", "%s: %d output vectors, reference has %d" % (what, len(got), len(want)), "count"))
            resp = [int(x[1]) for x in lines if x[0] == "R"][0]
            if not o.violations and resp != case["n"] * len(looks[0][0]):
                o.violations.append(V("responses", "%s: received_responses shows %d of %d lookups" % (what, resp, case["n"] * len(looks[0][0])), "responses"))
        o.nontrivial = len(set(looks[0][1])) > 1
        return o

    def shrink(self, case):
        if case["n"] > 1:
            yield dict(case, n=1)
            yield dict(case, n=case["n"] // 2)
            yield dict(case, n=case["n"] - 1)
        if case["tool"]:
            m = case["model"]
            for k in (4, 8, 16, 32):
                i = [j for j, t in enumerate(m) if t[0] == k][:max(1, EL // k)]
                if len(i) * k == EL and len(i) < len(m) - 1:
                    yield dict(case, model=[t for j, t in enumerate(m) if j not in i])
        else:
            T = case["tables"]
            for c in core.shrink_list(case, ["tables"]):
                if c["tables"]:
                    plan(c)
                    if fits(c):
                        yield c
            L = len(case["mvms"])
            if L > 1:
                for a in (case["mvms"][:-1], case["mvms"][1:]):
                    c = dict(case, mvms=a, dims=case["dims"][:-1])
                    plan(c)
                    if fits(c):
                        yield c
            for i in range(L):
                for p, v in ((["mvms", i], case["mvms"][i] - 1), (["dims", i], case["dims"][i] // 2)):
                    if v >= 1:
                        c = core.setp(case, p, v)
                        plan(c)
                        if fits(c):
                            yield c
            for k, v in (("merge", False), ("parts", False), ("pad", False), ("early", 0), ("kind", "small"), ("dens", 1)):
                if case[k] != v:
                    c = dict(case, **{k: v})
                    plan(c)
                    if fits(c):
                        yield c
        for k, v in (("gap", 0), ("stall", 0), ("rst", 1), ("spoil", None), ("period", 5.0), ("mper", 1.5)):
            if case[k] != v:
                yield core.setp(case, [k], v)


CHECK = E03()
