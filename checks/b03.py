"""B03: allocators and arbiters grant legally and fairly."""
import core
from core import Check, Outcome, V

ITER = ("islip", "pim", "select")


def parse_type(t):
    name = t.split("(")[0]
    par = t[len(name) + 1:-1] if "(" in t else ""
    return name, par


def arb_type(rng, sizes):
    r = rng.random()
    if r < 0.4:
        return "round_robin"
    if r < 0.75:
        return "matrix"
    g = [d for d in range(1, min(sizes) + 1) if all(s % d == 0 for s in sizes)]
    return "tree(%d,%s)" % (rng.choice(g), rng.choice(["round_robin", "matrix"]))


def gen_alloc(rng, tier):
    big = rng.random() < 0.15
    m = 16 if big else rng.choice([2, 3, 4, 5, 6, 8])
    ins, outs = rng.randint(1, m), rng.randint(1, m)
    if rng.random() < 0.4:
        outs = ins
    k = rng.randrange(9)
    t = ["max_size", "pim", "islip", "loa", "wavefront", "rr_wavefront", "select", "separable_input_first",
         "separable_output_first"][k]
    if t in ITER:
        t += "(%d)" % rng.choice([1, 1, 2, 3, max(ins, outs), 2 * max(ins, outs)])
    elif t.startswith("separable"):
        t += "(%s)" % arb_type(rng, [ins, outs])
    prios = rng.choice([[0], [0], [0, 1], [-3, 0, 7], [0, -2147480000], list(range(-2, 5))])
    c = {"kind": "alloc", "type": t, "ins": ins, "outs": outs, "seed": rng.randrange(1, 1 << 30), "rounds": []}
    mode = rng.choice(["free", "free", "static", "steady"])
    c["mode"] = mode

    def matrix(dens, skip_in=None):
        r = []
        for i in range(ins):
            if i == skip_in:
                continue
            for o in range(outs):
                if rng.random() < dens:
                    r.append([i, o, rng.randrange(0, 6), rng.choice(prios), rng.choice(prios), int(rng.random() < 0.2)])
        rng.shuffle(r)
        return r
    if mode == "free":
        for _ in range(rng.randint(1, 30)):
            c["rounds"].append(matrix(rng.choice([0, 0.1, 0.3, 0.6, 1.0, 1.0 / outs])))
    elif mode == "static":
        # the same requests, equal priorities, again and again
        if ins * outs > 64:
            c["ins"] = ins = min(ins, 8)
            c["outs"] = outs = min(outs, 8)
            if t.startswith("separable"):
                c["type"] = t.split("(")[0] + "(round_robin)"
        prios = [rng.choice([0, 2, -5])]
        r = matrix(rng.choice([0.2, 0.5, 0.9])) or [[0, 0, 1, prios[0], prios[0], 0]]
        for q in r:
            q[5] = 0
        # some history before, so that the pointers are anywhere
        for _ in range(rng.randint(0, 6)):
            c["rounds"].append(matrix(0.4))
        c["static"] = r
        c["nstatic"] = ins * outs + ins + outs + 2
        if t.startswith("pim"):
            c["nstatic"] = 600 if ins * outs <= 25 else 0
    else:
        # one input insists on one output while the others come and go
        p = rng.choice([0, 2])
        i0, o0 = rng.randrange(ins), rng.randrange(outs)
        c["pair"] = [i0, o0]
        prios = [p] if rng.random() < 0.6 else [p, p - 1, p - 4]
        c["pure"] = len(prios) == 1
        n = max(ins, outs)
        if t.startswith("pim"):
            n = 300 if n <= 8 else 700
        for _ in range(n + rng.randint(0, 4)):
            r = matrix(rng.choice([0.2, 0.6, 1.0]), skip_in=i0)
            for q in r:
                if q[1] != o0:
                    q[3], q[4] = q[3], q[4]
            r.insert(rng.randint(0, len(r)), [i0, o0, 1, p, p, 0])
            c["rounds"].append(r)
    return c


def gen_arb(rng, tier):
    kind = rng.choice(["arb", "arb", "arb", "parb"])
    size = rng.choice([1, 2, 3, 4, 5, 6, 8, 12])
    c = {"kind": kind, "type": arb_type(rng, [size]) if kind == "arb" else "", "size": size, "rounds": [], "seed": 1}
    prios = rng.choice([[0], [0], [0, 1], [-3, 0, 7]])
    keep = rng.randrange(size) if rng.random() < 0.6 else None
    top = max(prios)
    for _ in range(rng.randint(1, 4 * size + 4)):
        dens = rng.choice([0, 0.2, 0.5, 0.8, 1.0])
        r = [[i, rng.randrange(100), rng.choice(prios)] for i in range(size) if i != keep and rng.random() < dens]
        if keep is not None:
            r.append([keep, rng.randrange(100), top])
        rng.shuffle(r)
        if kind == "parb" and r and rng.random() < 0.3:      # several requests of one input: the best counts
            r.append([r[0][0], rng.randrange(100), rng.choice(prios)])
        c["rounds"].append([r, int(rng.random() < 0.8)])
    return c


def maxmatch(reqs, ins, outs):
    adj = [[] for _ in range(ins)]
    for i, o in reqs:
        adj[i].append(o)
    mt = [-1] * outs

    def aug(i, seen):
        for o in adj[i]:
            if o in seen:
                continue
            seen.add(o)
            if mt[o] < 0 or aug(mt[o], seen):
                mt[o] = i
                return True
        return False
    return sum(aug(i, set()) for i in range(ins))


def judge_round(c, reqs, inm, outm):
    """Legality and promises of one round. reqs: {(i,o): (ip,op)}."""
    v = []
    name, par = parse_type(c["type"])
    ins, outs = c["ins"], c["outs"]
    pairs = set()
    for i, o in enumerate(inm):
        if o != -1:
            if not 0 <= o < outs or outm[o] != i:
                v.append(V("not-a-matching", "input %d got output %s, whose input is %s" % (i, o, outm[o] if 0 <= o < outs else "?")))
                return v
            pairs.add((i, o))
    for o, i in enumerate(outm):
        if i != -1 and (not 0 <= i < ins or inm[i] != o):
            v.append(V("not-a-matching", "output %d got input %s, whose output is %s" % (o, i, inm[i] if 0 <= i < ins else "?")))
            return v
    for p in sorted(pairs):
        if p not in reqs:
            v.append(V("unrequested", "granted %s was not requested" % (p,)))
            return v
    if reqs and not pairs:
        v.append(V("no-grant", "%d requests and no grant" % len(reqs)))
        return v
    fi, fo = {i for i, _ in pairs}, {o for _, o in pairs}
    free = [p for p in sorted(reqs) if p[0] not in fi and p[1] not in fo]
    if name == "max_size" and len(reqs):
        m = maxmatch(reqs, ins, outs)
        if len(pairs) != m:
            v.append(V("not-maximum", "%d grants where %d are possible" % (len(pairs), m)))
    if name in ("wavefront", "rr_wavefront", "max_size") and free:
        v.append(V("not-maximal", "%s could still be granted" % (free[0],)))
    if name in ITER:
        it = int(par)
        if free and len(pairs) < it:
            v.append(V("idle-iteration", "%d grants after %d iterations, %s could still be granted" % (len(pairs), it, free[0])))
    if name in ("wavefront", "rr_wavefront"):
        gi = {i: reqs[(i, o)] for i, o in pairs}
        go = {o: reqs[(i, o)] for i, o in pairs}
        for (i, o), (ip, op) in sorted(reqs.items()):
            k = (op, ip)
            if (i, o) in pairs:
                continue
            bi, bo = gi.get(i), go.get(o)
            if not ((bi and (bi[1], bi[0]) >= k) or (bo and (bo[1], bo[0]) >= k)):
                v.append(V("priority", "%s of priority %s lost to lower ones" % ((i, o), k)))
                break
    single = {}
    for i, o in reqs:
        single.setdefault(i, []).append(o)
    singleo = {}
    for i, o in reqs:
        singleo.setdefault(o, []).append(i)
    for i, o in sorted(pairs):
        ip, op = reqs[(i, o)]
        if name == "separable_input_first":
            if ip < max(reqs[(i, x)][0] for x in single[i]):
                v.append(V("priority", "input %d got output %d, not its highest priority" % (i, o)))
            rivals = [reqs[(x, o)][1] for x in singleo[o] if len(single[x]) == 1]
            if rivals and op < max(rivals):
                v.append(V("priority", "output %d granted to %d over a higher priority" % (o, i)))
        if name == "separable_output_first" or (name == "select" and int(par) == 1):
            if op < max(reqs[(x, o)][1] for x in singleo[o]):
                v.append(V("priority", "output %d granted to %d, not its highest priority" % (o, i)))
            rivals = [reqs[(i, x)][0] for x in single[i] if len(singleo[x]) == 1]
            if rivals and ip < max(rivals):
                v.append(V("priority", "input %d got %d over a higher priority" % (i, o)))
    if name == "separable_input_first":
        # an output wanted by an input that wants nothing else is not left idle
        for i, os_ in single.items():
            if len(os_) == 1 and os_[0] not in fo:
                v.append(V("idle-output", "output %d idle although input %d wants only it" % (os_[0], i)))
                break
    if name == "separable_output_first" or name == "select":
        for o, is_ in singleo.items():
            if len(is_) == 1 and is_[0] not in fi:
                v.append(V("idle-input", "input %d idle although output %d is wanted only by it" % (is_[0], o)))
                break
    return v


class B03(Check):
    prop = "B03"
    targets = ["allocsim"]
    technique = ("property-based testing: random request matrices and priorities over histories of rounds, on every "
                 "allocator and arbiter type; oracle: matching legality, own maximum matching, priority and bounded-wait rules")
    rule = ("an allocator case with a round in which two requests compete for an input or output, or an arbiter case "
            "with at least two requesters in a round")
    quick_n = 6000
    thorough_n = 120000
    cpu_limit = 20
    assumptions = ["rounds start with Clear, as the routers do", "tree arbiters: the group count divides the size",
                   "an allocator pair is requested once, or replaced by a request of higher priority"]

    def gen(self, rng, i, tier):
        return gen_arb(rng, tier) if rng.random() < 0.3 else gen_alloc(rng, tier)

    def text(self, c):
        L = ["seed %d" % c["seed"]]
        if c["kind"] == "alloc":
            L.append("alloc %s %d %d" % (c["type"], c["ins"], c["outs"]))
            for r in self.rounds(c):
                L.append("r %d %s" % (len(r), " ".join(" ".join(map(str, q)) for q in r)))
        else:
            L.append("arb %s %d" % (c["type"], c["size"]) if c["kind"] == "arb" else "parb %d" % c["size"])
            for r, u in c["rounds"]:
                L.append("r %d %s %d" % (len(r), " ".join(" ".join(map(str, q)) for q in r), u))
        return "\n".join(L) + "\n"

    def rounds(self, c):
        return c["rounds"] + [c["static"]] * c.get("nstatic", 0) if "static" in c else c["rounds"]

    def execute(self, c, wd):
        r = core.run_proc([self.bin["allocsim"]], cpu=self.cpu_limit, stdin=self.text(c).encode())
        L = r.out.splitlines()
        if r.timeout:
            return Outcome([V("hang", "no answer within the CPU limit")], True, core.h(c))
        if r.rc != 0 or not L or L[-1] != "END":
            return Outcome([V("crash", "%s: %s" % (r.status(), r.err.strip()[-300:]), "crash:" + parse_type(c["type"])[0])], True, core.h(c))
        i = L.index("U")
        L = L[i + 1:-1]
        return self.judge_alloc(c, L) if c["kind"] == "alloc" else self.judge_arb(c, L)

    def judge_alloc(self, c, L):
        rounds = self.rounds(c)
        v = []
        nt = False
        hist = []
        name, par = parse_type(c["type"])
        for k, r in enumerate(rounds):
            reqs = {(q[0], q[1]): (q[3], q[4]) for q in r}
            nt = nt or len({q[0] for q in r}) < len(r) or len({q[1] for q in r}) < len(r)
            got = sorted(tuple(int(x) for x in t.split(",")) for t in L[2 * k][1:].split())
            want = sorted((q[0], q[1], q[2], q[3], q[4]) for q in r)
            if got != want:
                v.append(V("requests", "round %d: requests read back as %s, not %s" % (k, got[:6], want[:6])))
                break
            a, b = L[2 * k + 1][1:].split("|")
            inm, outm = [int(x) for x in a.split()], [int(x) for x in b.split()]
            e = judge_round(c, reqs, inm, outm)
            if e:
                for x in e[:1]:
                    v.append(V(x.kind, "%s %dx%d round %d: %s" % (c["type"], c["ins"], c["outs"], k, x.msg), x.kind + ":" + name))
                break
            hist.append(inm)
        if not v:
            v += self.fair(c, hist, name, par)
        return Outcome(v, nt, core.h(c), evals=len(rounds), tags=["alloc", name, c["mode"]])

    def fair(self, c, hist, name, par):
        if "static" in c and c["nstatic"]:
            h = hist[-c["nstatic"]:]
            ok = {(i, o) for m in h for i, o in enumerate(m) if o >= 0}
            if name in ("islip", "select", "separable_input_first", "separable_output_first"):
                miss = [p for p in sorted((q[0], q[1]) for q in c["static"]) if p not in ok]
            elif name in ("wavefront", "rr_wavefront"):
                miss = [p for p in sorted((q[0], q[1]) for q in c["static"]) if p not in ok]
            else:
                # at least every input that wants exactly one output
                one = {}
                for q in c["static"]:
                    one.setdefault(q[0], []).append(q[1])
                miss = [(i, o[0]) for i, o in sorted(one.items()) if len(o) == 1 and (i, o[0]) not in ok]
            if miss:
                return [V("starved", "%s %dx%d: %s never granted in %d identical rounds" %
                          (c["type"], c["ins"], c["outs"], miss[0], c["nstatic"]), "starved:" + name)]
        if c["mode"] == "steady":
            i, o = c["pair"]
            ok = any(m[i] == o for m in hist)
            if name in ("islip", "select", "separable_output_first"):
                return []          # a grant may go unused while other inputs come and go
            if name in ("max_size", "loa", "pim") and not c["pure"]:
                pass               # these ignore priorities
            need = max(c["ins"], c["outs"])
            if name == "pim":
                need = 300 if need <= 8 else 700
            if len(hist) >= need and not ok:
                return [V("starved", "%s %dx%d: input %d wants only output %d, never granted in %d rounds" %
                          (c["type"], c["ins"], c["outs"], i, o, len(hist)), "starved:" + name)]
        return []

    def judge_arb(self, c, L):
        v = []
        nt = False
        n = c["size"]
        isrr = c["type"] == "round_robin" or c["kind"] == "parb"
        last = None            # winner of the last update
        served = {}
        wait = {}
        prev = None
        for k, (r, upd) in enumerate(c["rounds"]):
            f = [int(x) for x in L[k][1:].split()]
            best = {}
            for i, d, p in r:
                if i not in best or p > best[i][1]:
                    best[i] = (d, p)
            nt = nt or len(best) >= 2
            w = f[0]
            if not best:
                if w != -1:
                    v.append(V("grant-from-nothing", "round %d: winner %d without requests" % (k, w)))
                    break
                continue
            if w not in best:
                v.append(V("unrequested", "round %d: winner %d did not ask (%s)" % (k, w, sorted(best))))
                break
            top = max(p for _, p in best.values())
            cand = sorted(i for i in best if best[i][1] == top)
            if w not in cand:
                v.append(V("priority", "round %d: winner %d has priority %d, %s have %d" % (k, w, best[w][1], cand, top)))
                break
            if c["kind"] == "arb":
                if f[1:3] != [best[w][0], best[w][1]]:
                    v.append(V("labels", "round %d: winner %d reported with id,pri %s, not %s" % (k, w, f[1:3], best[w])))
                    break
                if f[3] != w:
                    v.append(V("labels", "round %d: last winner %d, not %d" % (k, f[3], w)))
                    break
            if isrr and last is not None:
                x = min(cand, key=lambda i: (i - last - 1) % n)
                if w != x:
                    v.append(V("order", "round %d: after %d, requesters %s, winner %d, round robin gives %d" % (k, last, cand, w, x)))
                    break
            if c["type"] == "matrix":
                x = min(served.get(i, -1) for i in cand)
                if served.get(w, -1) != x:
                    v.append(V("order", "round %d: winner %d was served more recently than another of %s" % (k, w, cand)))
                    break
            if prev is not None and prev[0] == sorted(map(tuple, r)) and not prev[2] and c["kind"] == "arb" and prev[1] != w:
                v.append(V("order", "round %d: same requests, no update, different winner" % k))
                break
            prev = (sorted(map(tuple, r)), w, upd)
            if upd or c["kind"] == "parb":
                last = w
                served[w] = k
                for i in list(wait):
                    if i not in cand:
                        del wait[i]
                for i in cand:
                    wait[i] = 0 if i == w else wait.get(i, 0) + 1
                    if wait[i] >= n:
                        v.append(V("starved", "round %d: %d passed over %d times" % (k, i, wait[i])))
                if v:
                    break
            else:
                # a requester that pauses loses its claim
                for i in list(wait):
                    if i not in cand:
                        del wait[i]
        for x in v:
            x.msg = "%s %s(%d) " % (c["kind"], c["type"], n) + x.msg
        return Outcome(v, nt, core.h(c), evals=len(c["rounds"]), tags=[c["kind"], c["type"].split("(")[0] or "priority"])

    def shrink(self, c):
        import copy
        rs = c["rounds"]
        for k in (len(rs) // 2, len(rs) // 4, 1):
            if k < 1:
                continue
            for a in range(0, len(rs), k):
                d = copy.deepcopy(c)
                del d["rounds"][a:a + k]
                yield d
        if "static" in c:
            for a in range(len(c["static"])):
                if len(c["static"]) > 1:
                    d = copy.deepcopy(c)
                    del d["static"][a]
                    yield d
        for a in range(len(rs)):
            r = rs[a] if c["kind"] == "alloc" else rs[a][0]
            for b in range(len(r)):
                if c.get("pair") and r[b][:2] == c["pair"]:
                    continue
                d = copy.deepcopy(c)
                del (d["rounds"][a] if c["kind"] == "alloc" else d["rounds"][a][0])[b]
                yield d
        for a in range(len(rs)):
            r = rs[a] if c["kind"] == "alloc" else rs[a][0]
            for b in range(len(r)):
                for f in range(2, len(r[b])):
                    if r[b][f] not in (0, 1):
                        d = copy.deepcopy(c)
                        (d["rounds"][a] if c["kind"] == "alloc" else d["rounds"][a][0])[b][f] = 0
                        yield d


CHECK = B03()
