"""U01: packetization splits and rebuilds every transfer losslessly; flits are values."""
import random
import core
from core import Check, Outcome, V


def bits(rng, w):
    r = rng.random()
    if r < 0.15:
        return "1" * w
    if r < 0.25:
        return "1" + "0" * (w - 1)
    if r < 0.3:
        return "0" * w
    return "".join(rng.choice("01") for _ in range(w))


class U01(Check):
    prop = "U01"
    targets = ["unith_a", "unith_b"]
    technique = "model-based (stateful) property testing of flit, packet and slicing operations"
    rule = "a history of at least 20 operations in which a freed payload was reused while other flits were alive, or a transfer was sliced and rebuilt"
    quick_n = 250
    thorough_n = 6000
    cpu_limit = 30
    assumptions = ["a flit is freed once and not used afterwards"]

    def prepare(self):
        self.w = {}
        for v in "ab":
            r = core.run_proc([self.bin["unith_" + v]], stdin=b"widths\n")
            self.w[v] = list(map(int, r.out.split()[:7]))

    def gen(self, rng, i, tier):
        v = "ab"[i % 2]
        W, AS, MM, VC, ID, DW, IFW = self.w[v]
        n = rng.choice([30, 60, 120] if tier == "quick" else [30, 120, 400])
        ops, live, packs, nh, np_ = [], [], {}, 0, 0

        def fresh():
            nonlocal nh
            nh += 1
            live.append(nh)
            return nh
        while len(ops) < n:
            r = rng.random()
            if r < 0.18 or not live:
                if rng.random() < 0.3:
                    ops.append(["new", fresh()])
                else:
                    ops.append(["make", fresh(), rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 4), rng.randrange(1 << min(VC, 8)),
                                bits(rng, ID), bits(rng, min(DW, 62)).rjust(DW, "0"), bits(rng, IFW), rng.randrange(1 << 32)])
            elif r < 0.28:
                b = rng.choice(live)
                ops.append(["copy", fresh(), b])
            elif r < 0.38:
                ops.append(["assign", rng.choice(live), rng.choice(live)])
            elif r < 0.48:
                ops.append(["data", rng.choice(live), bits(rng, W)])
            elif r < 0.62:
                k = rng.choice(["slice", "slicem"])
                w = AS if k == "slice" else MM
                p = bits(rng, w)
                m = -(-w // W)
                if rng.random() < 0.3:       # a whole transfer
                    hs = [fresh() for _ in range(m)]
                    for j, x in enumerate(hs):
                        ops.append(["make", x, int(j == 0), int(j == m - 1), rng.randint(0, 4), 0, bits(rng, ID), "0" * DW, "0" * IFW, 5])
                        ops.append([k, x, j, p])
                    for x in hs:
                        ops.append(["show", x])
                else:
                    ops.append([k, rng.choice(live), rng.randrange(m), p])
            elif r < 0.74 and len(live) > 1:
                x = live.pop(rng.randrange(len(live)))
                ops.append(["free", x])
            elif r < 0.78:
                np_ += 1
                packs[np_] = 0
                ops.append(["pnew", np_])
            elif r < 0.88 and packs:
                p = rng.choice(sorted(packs))
                packs[p] += 1
                ops.append(["padd", p, rng.choice(live)])
            elif r < 0.92 and packs:
                p = rng.choice(sorted(packs))
                ops.append(["plen", p])
                if packs[p]:
                    ops.append(["pget", p, rng.randrange(packs[p])])
            elif r < 0.95 and packs:
                p = rng.choice(sorted(packs))
                packs[p] = 0
                ops.append([rng.choice(["preset", "pfree"]), p])
            ops.append(["show", rng.choice(live)])
        for x in live:
            ops.append(["show", x])
        for p, k in packs.items():
            ops += [["pget", p, j] for j in range(k)]
        return {"v": v, "ops": ops}

    def execute(self, c, wd):
        W, AS, MM, VC, ID, DW, IFW = self.w[c["v"]]
        r = core.run_proc([self.bin["unith_" + c["v"]]], cwd=wd, cpu=self.cpu_limit, stdin="".join(" ".join(map(str, o)) + "\n" for o in c["ops"]).encode())
        if r.timeout:
            return Outcome(inconclusive="time")
        L = r.out.splitlines()
        if not L or L[-1] != "END":
            return Outcome([V("crash", "ended with %s: %s" % (r.status(), r.err.strip()[-200:]))])
        F, P, vs, k, reused, freed, sliced, ev = {}, {}, [], 0, False, 0, 0, 0
        Z = "0" * W

        def fmt(f):
            return "%d %d %d %d %s %s %s %s %s" % (f["h"], f["t"], f["ty"], f["vc"], f["id"], f["d"], f["di"], f["tr"], f["p"])
        for o in c["ops"]:
            if o[0] == "new":
                # the transaction id and the payload of a new flit are whatever its owner writes
                F[o[1]] = {"h": 0, "t": 0, "ty": None, "vc": 0, "id": "0" * ID, "d": "0" * DW, "di": "0" * IFW, "tr": None, "p": None}
                reused |= freed > 0
            elif o[0] == "make":
                F[o[1]] = {"h": o[2], "t": o[3], "ty": o[4], "vc": o[5], "id": o[6], "d": o[7], "di": o[8], "tr": o[9], "p": None}
                reused |= freed > 0
            elif o[0] == "copy":
                F[o[1]] = dict(F[o[2]])
                reused |= freed > 0
            elif o[0] == "assign":
                F[o[1]] = dict(F[o[2]])
                reused |= freed > 0
            elif o[0] == "data":
                F[o[1]]["p"] = o[2].rjust(W, "0")[-W:]
            elif o[0] in ("slice", "slicem"):
                p = o[3][::-1]               # LSB first
                s = p[o[2] * W:(o[2] + 1) * W]
                F[o[1]]["p"] = s[::-1].rjust(W, "0")
                sliced += 1
            elif o[0] == "free":
                del F[o[1]]
                freed += 1
            elif o[0] == "pnew":
                P[o[1]] = []
            elif o[0] == "padd":
                P[o[1]].append(dict(F[o[2]]))
            elif o[0] in ("preset", "pfree"):
                P[o[1]] = []
            elif o[0] in ("show", "pget", "plen"):
                got = L[k] if k < len(L) else ""
                k += 1
                ev += 1
                if o[0] == "plen":
                    if got != str(len(P[o[1]])):
                        vs.append(V("length", "packet of %d flits reports %s" % (len(P[o[1]]), got)))
                    continue
                f = F[o[1]] if o[0] == "show" else P[o[1]][o[2]]
                g = got.split()
                keys = ("h", "t", "ty", "vc", "id", "d", "di", "tr", "p")
                if len(g) != 9:
                    vs.append(V("output", "no answer: %s" % got[:80]))
                    continue
                for key, x in zip(keys, g):
                    if f[key] is not None and str(f[key]) != x:
                        vs.append(V("payload" if key == "p" else "field", "after %d operations %s is %s, not %s (%s)" % (
                            c["ops"].index(o), {"p": "the payload", "tr": "the transaction id"}.get(key, key), x, f[key], " ".join(map(str, o)))))
        seen, out = set(), []
        for v in vs:
            if v.kind not in seen:
                seen.add(v.kind)
                out.append(v)
        return Outcome(out, nontrivial=len(c["ops"]) >= 20 and (reused or sliced > 1), sig=core.h(c["ops"][:40]), evals=max(1, ev), tags=["v" + c["v"]])

    def shrink(self, c):
        n = len(c["ops"])
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                d = dict(c, ops=c["ops"][:a] + c["ops"][a + size:])
                if self.valid(d["ops"]):
                    yield d
            size //= 2

    def valid(self, ops):
        F, P = set(), {}
        for o in ops:
            if o[0] in ("new", "make"):
                F.add(o[1])
            elif o[0] == "copy":
                if o[2] not in F:
                    return False
                F.add(o[1])
            elif o[0] == "assign":
                if o[1] not in F or o[2] not in F:
                    return False
            elif o[0] in ("data", "slice", "slicem", "show"):
                if o[1] not in F:
                    return False
            elif o[0] == "free":
                if o[1] not in F:
                    return False
                F.discard(o[1])
            elif o[0] == "pnew":
                P[o[1]] = 0
            elif o[0] == "padd":
                if o[1] not in P or o[2] not in F:
                    return False
                P[o[1]] += 1
            elif o[0] in ("preset", "pfree"):
                if o[1] not in P:
                    return False
                P[o[1]] = 0
            elif o[0] == "plen":
                if o[1] not in P:
                    return False
            elif o[0] == "pget":
                if P.get(o[1], 0) <= o[2]:
                    return False
        return True


CHECK = U01()
