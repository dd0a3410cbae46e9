"""B02: routing functions lead every packet to its destination over legal, minimal, deadlock-free routes."""
import collections, os
import bsim, core
from core import Check, Outcome, V


def gen_anynet(rng, big, tree=None):
    R = rng.randint(1, 12 if big else 7)
    tree = rng.random() < 0.4 if tree is None else tree
    links = [[] for _ in range(R)]

    def lat():
        return rng.choice([None, None, 1, 2, 3, 5, 9])
    pairs = [(i, rng.randrange(i)) for i in range(1, R)]
    if not tree:
        for _ in range(rng.randint(0, 2 * R)):
            a, b = rng.randrange(R), rng.randrange(R)
            if a != b and (a, b) not in pairs and (b, a) not in pairs:
                pairs.append((a, b))
    for a, b in pairs:
        if rng.random() < 0.5:
            a, b = b, a
        links[a].append([b, lat()])
        if rng.random() < 0.5:           # the way back is named, too
            links[b].append([a, lat()])
    for l in links:
        rng.shuffle(l)
    N = max(1, rng.randint(R, 2 * R)) if rng.random() < 0.6 else rng.randint(1, R + 2)
    nd = [[rng.randrange(R), lat()] for _ in range(N)]
    return {"links": links, "nodes": nd, "sp": rng.choice([1, 1, 2]),
            "nodelines": [n for n in range(N) if rng.random() < 0.5] if rng.random() < 0.3 else []}


def any_lat(net):
    """router graph: latency of each directed channel as the format defines it"""
    g = {}
    for a, l in enumerate(net["links"]):
        for b, w in l:
            g[(a, b)] = w or 1
            g.setdefault((b, a), 1)
    # a link named from both ends keeps each end's own latency
    return g


def pick(rng, i, big):
    keys = sorted(bsim.C)
    if i % 3 == 2:                       # what the configuration generator emits, more often
        return rng.choice([("anynet", "min"), ("anynet", "min"), ("mesh", "dor"), ("torus", "dim_order"), ("mesh", "dim_order"), rng.choice(keys)])
    return keys[(i // 3 * 2 + i % 3) % len(keys)]


def base_case(rng, i, tier, maxn=None):
    big = tier == "thorough" and rng.random() < 0.5
    top, rf = pick(rng, i, big)
    c = {"top": top, "rf": rf}
    if top == "anynet":
        c["net"] = gen_anynet(rng, big)
        c["kw"] = {}
        N = len(c["net"]["nodes"])
        need = 1
        tr = set()
    else:
        size, needf, tr = bsim.C[(top, rf)]
        c["kw"] = size(rng, big)
        N = bsim.nodes(top, c["kw"])
        if maxn and N > maxn and (top not in ("qtree", "tree4") or rng.random() < 0.5):
            return None
        need = needf(N, c["kw"]["k"])
    split = rng.random() < 0.5 and need <= 64
    vper = need * rng.choice([1, 1, 2]) + (rng.randint(0, 2) if need < 16 else 0)
    if "perdest" in tr or vper > 64:
        vper = need
    if "fixedvcs" in tr:
        vper, split = 3, False
    c["split"] = int(split)
    c["vper"] = vper
    c["N"] = N
    return c


def network_cfg(c, wd):
    cfg = {"topology": c["top"], "routing_function": c["rf"]}
    cfg.update(c["kw"])
    if c["top"] == "anynet":
        p = os.path.join(wd, "anynet")
        with open(p, "w") as f:
            f.write(bsim.anynet_file(c["net"]))
        cfg["network_file"] = p
    bsim.classes(cfg, c["vper"], c["split"])
    return cfg


def digits(x, k, n):
    return [(x // k ** d) % k for d in range(n)]


class B02(Check):
    prop = "B02"
    targets = ["netsim"]
    technique = "property-based testing: exhaustive walks of the routing relation on generated networks against graph oracles"
    rule = "a case whose walk covered at least 4 source/destination pairs and 8 router visits on a network of at least 2 routers"
    quick_n = 400
    thorough_n = 8000
    cpu_limit = 60
    assumptions = ["network sizes and VC counts the routing function is written for (its own assertions)",
                   "channel dependencies judged at zero load for the load-adaptive functions"]

    def gen(self, rng, i, tier):
        c = base_case(rng, i, tier)
        N = c["N"]
        tr = bsim.C[(c["top"], c["rf"])][2] if c["top"] != "anynet" else set()
        prs = [(s, d) for s in range(N) for d in range(N)]
        lim = 256 if tier == "quick" else 1024
        if "perdest" in tr or c["vper"] > 24:
            lim = 60
        if len(prs) > lim:
            prs = rng.sample(prs, lim)
        types = list(range(6)) if not c["split"] else list(range(5))
        rep = 3 if "rand" in tr else 1
        mono = rng.choice(types) if rng.random() < 0.5 else None
        c["pk"] = [[s, d, rng.choice(types) if mono is None else mono] for s, d in prs for _ in range(rep)]
        c["bseed"] = rng.randrange(1, 1 << 30)
        c["ns"] = rng.choice([0, 0, 1])
        return c

    def execute(self, c, wd):
        cfg = network_cfg(c, wd)
        cfg["vc_buf_size"] = 4
        cfg["noc_latency_model"] = 0
        del cfg["noc_latency_model"]
        cfg["use_noc_latency"] = c.get("ns", 0)
        scen = "routes\nbseed %d\n" % c["bseed"] + "".join("p 0 %d %d %d 1 0\n" % tuple(p) for p in c["pk"])
        r = bsim.run(self.bin["netsim"], wd, cfg, scen, self.cpu_limit)
        if r.timeout:
            return Outcome(inconclusive="time")
        L = r.out.splitlines()
        if not L or L[-1] != "END":
            return Outcome([V("crash", "routing walk ended with %s: %s" % (r.status(), r.err.strip()[-300:]))], sig=core.h([c["top"], c["rf"], c["kw"]]))
        return self.judge(c, cfg, L)

    def judge(self, c, cfg, L):
        vs = []
        top, rf = c["top"], c["rf"]
        tr = bsim.C[(top, rf)][2] if top != "anynet" else {"det", "anymin"}
        links, eject, inj, nout = {}, {}, {}, {}
        walks = []
        for l in L:
            f = l.split()
            if not f:
                continue
            if f[0] == "O" and len(f) == 5:
                nout[int(f[2])] = int(f[4])
            elif f[0] == "K" and len(f) == 7:
                if f[3] == "R":
                    links[(int(f[1]), int(f[2]))] = (int(f[4]), int(f[5]), int(f[6]))
                else:
                    eject[int(f[4])] = (int(f[1]), int(f[2]), int(f[6]))
            elif f[0] == "M" and len(f) == 5:
                inj[int(f[1])] = (int(f[2]), int(f[3]), int(f[4]))
            elif f[0] == "W" and len(f) == 4:
                walks.append((int(f[1]), int(f[2]), int(f[3]), [], []))
            elif f[0] == "J" and walks:
                walks[-1][3].append(tuple(map(int, f[1:4])))
            elif f[0] == "R" and walks:
                parts = l.split(" | ")
                st = tuple(map(int, parts[0].split()[1:]))
                pr = []
                for p in parts[1:]:
                    q = p.split()
                    nx = None
                    if q[4].startswith("R"):
                        a, b = q[4][1:].split(".")
                        nx = ("R", int(a), int(b), int(q[5][1:]), int(q[6][1:]))
                    elif q[4].startswith("N"):
                        nx = ("N", int(q[4][1:]))
                    pr.append((int(q[0]), int(q[1]), int(q[2]), int(q[3]), nx))
                walks[-1][4].append((st, pr))
        N = c["N"]
        adj = collections.defaultdict(set)
        for (a, _), (b, _, _) in links.items():
            adj[a].add(b)
        vs += self.topology(c, links, eject, inj, adj, nout, cfg)

        def dists(src):
            dd = {src: 0}
            q = collections.deque([src])
            while q:
                x = q.popleft()
                for y in adj[x]:
                    if y not in dd:
                        dd[y] = dd[x] + 1
                        q.append(y)
            return dd
        dcache = {}

        def dist(a, b):
            if a not in dcache:
                dcache[a] = dists(a)
            return dcache[a].get(b)
        diam = None
        cdg = collections.defaultdict(set)
        esc = collections.defaultdict(set)
        visits = 0
        for src, dst, ty, J, R in walks:
            lo, hi = (cfg[bsim.TYPES[ty] + "_begin_vc"], cfg[bsim.TYPES[ty] + "_end_vc"]) if ty < 5 else (0, cfg["num_vcs"] - 1)
            who = "%s_%s %s packet %d->%d type %d" % (rf, top, c["kw"], src, dst, ty)
            if not J:
                vs.append(V("noinject", who + ": no VC to inject on"))
            for p, a, b in J:
                if a < lo or b > hi or a > b:
                    vs.append(V("injvc", "%s: injection VCs %d-%d outside %d-%d" % (who, a, b, lo, hi)))
            st = {s: p for s, p in R}
            visits += len(R)
            succ = {}
            ok = True
            for s, prs in R:
                if not prs:
                    vs.append(V("stop", "%s: no way on at router %d (in %d vc %d)" % (who, s[0], s[1], s[2])))
                nx = []
                outs = set()
                for o, a, b, pri, n in prs:
                    outs.add(o)
                    if n is None or o < 0 or o >= nout.get(s[0], 0):
                        vs.append(V("port", "%s: router %d proposes port %d" % (who, s[0], o)))
                        ok = False
                        continue
                    if a < lo or b > hi or a > b:
                        vs.append(V("vcs", "%s: router %d port %d VCs %d-%d outside %d-%d" % (who, s[0], o, a, b, lo, hi)))
                    if n[0] == "N":
                        if n[1] != dst:
                            vs.append(V("misdelivered", "%s: router %d delivers to node %d" % (who, s[0], n[1])))
                    else:
                        for v in range(a, b + 1):
                            t = (n[1], n[2], v, n[3], n[4])
                            nx.append(t)
                            cdg[(s[0], s[1], s[2])].add((n[1], n[2], v))
                            if "esc" in tr and v == lo and s[2] == lo or "esc2" in tr and v <= lo + 1 and s[2] <= lo + 1:
                                esc[(s[0], s[1], s[2])].add((n[1], n[2], v))
                if "det" in tr and len(outs) > 1:
                    vs.append(V("det", "%s: router %d offers ports %s" % (who, s[0], sorted(outs))))
                if rf in ("min_adapt", "planar_adapt") or (top, rf) == ("tree4", "anca"):
                    vs += self.choice(c, who, s, prs, lo, inj, eject[dst][0], adj, dist)
                if ("esc" in tr or "esc2" in tr) and dst != s[0]:
                    e = lo if "esc" in tr else lo + 1
                    if not any(a <= e for o, a, b, pri, n in prs):
                        vs.append(V("noescape", "%s: no escape VC at router %d" % (who, s[0])))
                    ej_ = inj_port(inj, s)
                    if s[2] <= e and not ej_ and any(b > e for o, a, b, pri, n in prs):
                        vs.append(V("leaves-escape", "%s: leaves the escape VCs at router %d" % (who, s[0])))
                succ[s] = nx
            if not ok or vs:
                continue
            # all routes end (no cycle), longest and shortest length
            order, mark, cyc = [], {}, False
            for s0 in succ:
                if s0 in mark:
                    continue
                stack = [(s0, iter(succ[s0]))]
                mark[s0] = 1
                while stack:
                    x, it = stack[-1]
                    for y in it:
                        if y not in succ:
                            continue
                        if mark.get(y) == 1:
                            cyc = True
                        elif y not in mark:
                            mark[y] = 1
                            stack.append((y, iter(succ[y])))
                            break
                    else:
                        mark[x] = 2
                        order.append(x)
                        stack.pop()
            if cyc:
                vs.append(V("livelock", who + ": the route can return to where it was"))
                continue
            far = {}
            for x in order:
                far[x] = max([1 + far[y] for y in succ[x] if y in far] or [0])
            sr = inj[src][0]
            dr = eject[dst][0]
            starts = [x for x in succ if x[0] == sr and x[1] == inj[src][1]]
            hops = max([far[x] for x in starts] or [0])
            d = dist(sr, dr)
            if "min" in tr and d is not None and hops != d:
                vs.append(V("minimal", "%s: %d hops where %d suffice" % (who, hops, d)))
            if "express" in tr:
                k = c["kw"]["k"]
                md = abs(sr % k - dr % k) + abs(sr // k - dr // k)
                if hops > md:
                    vs.append(V("detour", "%s: %d hops, the plain mesh needs %d" % (who, hops, md)))
            if "phase" in tr and d is not None:
                if diam is None:
                    diam = max(max(dists(a).values()) for a in list(adj) or [sr])
                if hops > 2 * diam + 1:
                    vs.append(V("long", "%s: %d hops, diameter %d" % (who, hops, diam)))
            if "anymin" in tr:
                vs += self.anymin(c, who, src, dst, succ, st, inj, eject, links)
        if not vs and ("cdg" in tr or "esc" in tr or "esc2" in tr):
            g = cdg if "cdg" in tr else esc
            cy = find_cycle(g)
            if cy:
                vs.append(V("deadlock", "%s_%s %s %d VCs: channels that wait for each other: %s" % (
                    rf, top, c["kw"], cfg["num_vcs"], " -> ".join("router %d in %d vc %d" % x for x in cy))))
        nr = len({a for a, _ in links}) or 1
        nt = len(walks) >= 4 and visits >= 8 and nr >= 2
        seen, uniq = set(), []
        for v in vs:
            if v.kind not in seen:
                seen.add(v.kind)
                uniq.append(v)
        return Outcome(uniq, nontrivial=nt, sig=core.h([top, rf, c["kw"], c.get("net"), c["vper"], c["split"], len(c["pk"])]),
                       evals=visits, tags=[top + "." + rf, "routers%d" % min(nr, 64), "split%d" % c["split"]])

    def choice(self, c, who, s, prs, lo, inj, dr, adj, dist):
        """an adaptive function offers every productive way (where its VC rules let it choose)"""
        top, rf = c["top"], c["rf"]
        x = s[0]
        if x == dr or top == "tree4" and x < 16:
            return []
        if rf == "min_adapt" and not inj_port(inj, s) and s[2] <= (lo if top == "mesh" else lo + 1):
            return []                    # on the escape VCs
        offered = {n[1] for o, a, b, pri, n in prs if n is not None and n[0] == "R"}
        if top == "torus":
            k, n = c["kw"]["k"], c["kw"]["n"]
            dx, dd = digits(x, k, n), digits(dr, k, n)
            for d in range(n):
                if dx[d] != dd[d] and not any(digits(y, k, n)[d] != dx[d] for y in offered):
                    return [V("choice", "%s: router %d offers %s, nothing in dimension %d" % (who, x, sorted(offered), d))]
            return []
        d0 = dist(x, dr)
        want = {y for y in adj[x] if dist(y, dr) is not None and dist(y, dr) < d0}
        if not want <= offered:
            return [V("choice", "%s: router %d offers %s of the productive ways %s" % (who, x, sorted(offered), sorted(want)))]
        return []

    def topology(self, c, links, eject, inj, adj, nout, cfg):
        vs = []
        top, kw, N = c["top"], c["kw"], c["N"]
        if sorted(eject) != list(range(N)) or sorted(inj) != list(range(N)):
            return [V("nodes", "%s %s: nodes served %s" % (top, kw, sorted(eject)))]
        if top in ("mesh", "torus", "cmesh", "anynet", "flatfly", "tree4", "qtree", "fattree", "dragonflynew"):
            for n in range(N):
                if inj[n][0] != eject[n][0]:
                    vs.append(V("nodes", "%s: node %d injects at router %d, ejects from %d" % (top, n, inj[n][0], eject[n][0])))
        if top in ("mesh", "torus"):
            k, n = kw["k"], kw["n"]
            for x in range(N):
                want = set()
                dx = digits(x, k, n)
                for d in range(n):
                    for s in (1, -1):
                        y = dx[d] + s
                        if top == "torus":
                            y %= k
                        if 0 <= y < k:
                            want.add(x + (y - dx[d]) * k ** d)
                if not (want <= adj[x] if top == "mesh" else adj[x] == want):
                    vs.append(V("neighbours", "%s %s: router %d reaches %s, not %s" % (top, kw, x, sorted(adj[x]), sorted(want))))
                adj[x] = want            # a mesh may carry unused wires around its edges
                if inj[x][0] != x:
                    vs.append(V("nodes", "%s: node %d at router %d" % (top, x, inj[x][0])))
        if top in ("mesh", "torus") or top in ("cmesh", "fly", "fattree", "tree4", "qtree") and not c.get("ns"):
            # folded torus channels span two tiles when wire lengths count
            l = 2 if top == "torus" and c.get("ns") else 1
            bad = sorted((a, b, w) for (a, o), (b, i, w) in links.items() if w != l)
            if bad:
                vs.append(V("links", "%s %s: channel from router %d to %d takes %d cycles, not %d" % ((top, kw) + bad[0] + (l,))))
        if top == "cmesh":
            k = kw["k"]
            if "no_express" in c["rf"]:
                for r in range(k * k):
                    adj[r] = {y for y in (r - 1 if r % k else -1, r + 1 if r % k < k - 1 else -1, r - k, r + k) if 0 <= y < k * k}
            for x in range(N):
                w = 2 * k
                r = (x // w // 2) * k + (x % w) // 2
                if inj[x][0] != r:
                    vs.append(V("nodes", "cmesh k=%d: node %d at router %d, not %d" % (k, x, inj[x][0], r)))
        if top == "anynet":
            g = any_lat(c["net"])
            have = {}
            for (a, o), (b, i, lat) in links.items():
                have[(a, b)] = lat
            if have != g:
                diff = [(e, have.get(e), g.get(e)) for e in sorted(set(have) | set(g)) if have.get(e) != g.get(e)]
                vs.append(V("links", "anynet links (routers, built, specified): %s" % diff[:4]))
            for n, (r, lat) in enumerate(c["net"]["nodes"]):
                if inj[n] [0] != r or inj[n][2] != (lat or 1) or eject[n][2] != (lat or 1):
                    vs.append(V("links", "anynet node %d at router %d latency %d/%d, specified %d %d" % (n, inj[n][0], inj[n][2], eject[n][2], r, lat or 1)))
        return vs

    def anymin(self, c, who, src, dst, succ, st, inj, eject, links):
        g = any_lat(c["net"])
        R = len(c["net"]["links"])
        a, b = inj[src][0], eject[dst][0]
        INF = 1 << 30
        D = [INF] * R
        D[a] = 0
        for _ in range(R):
            for (x, y), w in g.items():
                if D[x] + w < D[y]:
                    D[y] = D[x] + w
        # latency of the route taken
        cur = [x for x in succ if x[0] == a and x[1] == inj[src][1]][:1]
        if not cur:
            return []
        x, tot, n = cur[0], 0, 0
        while x[0] != b and succ.get(x) and n < 1000:
            y = succ[x][0]
            tot += g.get((x[0], y[0]), INF)
            x, n = y, n + 1
        if tot != D[b]:
            return [V("shortest", "%s: route of latency %d, shortest %d" % (who, tot, D[b]))]
        return []

    def shrink(self, c):
        yield from core.shrink_list(c, ["pk"])
        if c["top"] == "anynet":
            yield from core.shrink_list(c, ["net", "links", 0])
        if c["split"]:
            yield dict(c, split=0)


def inj_port(inj, s):
    return any(r == s[0] and p == s[1] for r, p, _ in inj.values())


def find_cycle(g):
    mark = {}
    for s in list(g):
        if s in mark:
            continue
        path = [s]
        mark[s] = 1
        stack = [iter(sorted(g[s]))]
        while stack:
            for y in stack[-1]:
                if mark.get(y) == 1:
                    return path[path.index(y):] + [y]
                if y not in mark:
                    mark[y] = 1
                    path.append(y)
                    stack.append(iter(sorted(g.get(y, ()))))
                    break
            else:
                mark[path.pop()] = 2
                stack.pop()
    return None


CHECK = B02()
