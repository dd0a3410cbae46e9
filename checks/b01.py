"""B01: the network delivers every flit exactly once, to the right node, in order within its packet, whatever the configuration."""
import collections
import itertools
import b02, bsim, core
from core import Check, Outcome, V

ALLOCS = ["islip", "islip", "islip", "pim", "select", "separable_input_first", "separable_output_first", "wavefront", "rr_wavefront", "loa", "max_size"]


def flags(rng, p, names):
    return {n: 1 for n in names if rng.random() < p}


def router_opts(rng, heavy_ok=True):
    o = {"vc_allocator": rng.choice(ALLOCS), "sw_allocator": rng.choice(ALLOCS),
         "arb_type": rng.choice(["round_robin", "matrix"]), "alloc_iters": rng.choice([1, 1, 1, 2, 3]),
         "vc_buf_size": rng.choice([1, 2, 3, 4, 8, 16]),
         "routing_delay": rng.choice([0, 1, 1, 2, 3]),
         "vc_alloc_delay": rng.choice([1, 1, 1, 2, 3]), "sw_alloc_delay": rng.choice([1, 1, 1, 2, 3]),
         "st_prepare_delay": rng.choice([0, 0, 0, 1, 2]), "st_final_delay": rng.choice([1, 1, 1, 2, 3]),
         "credit_delay": rng.choice([0, 0, 1, 2, 3]), "output_delay": rng.choice([0, 0, 0, 1]),
         "wait_for_tail_credit": int(rng.random() < 0.4)}
    if rng.random() < 0.5:
        o.update({k: 1 for k in ("vc_busy_when_full", "vc_prioritize_empty", "vc_shuffle_requests", "hold_switch_for_packet",
                                 "vc_priority_donation") if rng.random() < 0.3})
    if rng.random() < 0.25:
        o["speculative"] = 1
        o.update({k: int(rng.random() < 0.5) for k in ("spec_check_elig", "spec_check_cred", "spec_mask_by_reqs") if rng.random() < 0.5})
        o["vc_alloc_delay"] = o["sw_alloc_delay"] = 1     # speculation pairs allocations made in one cycle
        o["spec_sw_allocator"] = rng.choice(["prio", "islip", "select"])
        if o["sw_allocator"] == "max_size":
            # max_size knows no priorities: it cannot serve guesses and certain requests together
            o["spec_sw_allocator"] = rng.choice(["islip", "select"])
    if rng.random() < 0.25:
        o["output_buffer_size"] = rng.choice([1, 2, 4, 8])
    if rng.random() < 0.2:
        o["internal_speedup"] = rng.choice(["1.5", "2.0", "3.0"])
        o["vc_alloc_delay"] = o["sw_alloc_delay"] = 1     # delays count cycles, not internal steps
        o.pop("output_buffer_size", None)
    if rng.random() < 0.2:
        o["input_speedup"] = 2
    if rng.random() < 0.2:
        o["output_speedup"] = 2
    if rng.random() < 0.3:
        o["priority"] = "none"
    if rng.random() < 0.3:
        o["use_noc_latency"] = 1
    if rng.random() < 0.25:
        # the sharing policies count slots per cycle: one grant per output and cycle
        o["buffer_policy"] = rng.choice(["shared", "limited", "dynamic", "shifting", "feedback", "simplefeedback"])
        o["sw_alloc_delay"] = 1
        o.pop("output_speedup", None)
        o.pop("internal_speedup", None)
        if o["buffer_policy"] == "shifting":
            o["vc_buf_size"] = max(2, o["vc_buf_size"])   # its halving share of one slot per VC would be none
    return o


class B01(Check):
    prop = "B01"
    targets = ["netsim"]
    technique = "property-based testing: generated networks, router options and packet schedules against a delivery model"
    rule = "at least 10 packets delivered, some flit crossed a router-to-router link, and at some time two packets were in the network together, or each was alone and had its exact latency checked"
    quick_n = 700
    thorough_n = 12000
    cpu_limit = 20
    assumptions = ["sources and sinks respect the credit protocol", "routing functions judged free of deadlock (B02); arbitrary graphs only as trees or lightly loaded"]

    def gen(self, rng, i, tier):
        for k in itertools.count(i):
            c = b02.base_case(rng, k, tier, maxn=36 if tier == "quick" else 80)
            if c is None:
                continue
            top, rf = c["top"], c["rf"]
            tr = bsim.C[(top, rf)][2] if top != "anynet" else set()
            nv = c["vper"] * (5 if c["split"] else 1)
            if nv > 40 or nv * c["N"] > 600:
                continue
            break
        c["opt"] = o = router_opts(rng)
        N = c["N"]
        light = top == "anynet" and len([1 for l in c["net"]["links"] for _ in l]) and not self.is_tree(c["net"])
        mode = rng.choice(["burst", "spread", "hot", "lone", "pairs"])
        if light:
            mode = "lone"
        c["mode"] = mode
        n = rng.randint(1, 40) if rng.random() < 0.3 else rng.randint(40, min(400, 40 + 20 * N))
        if mode == "lone":
            n = min(n, 40)
        maxs = rng.choice([1, 1, 3, 6, 12])
        span = {"burst": 5, "spread": 6 * n, "hot": n, "lone": 0, "pairs": 20}[mode]
        types = rng.sample(range(5), rng.randint(1, 5)) if c["split"] else rng.choice([[5], [0], list(range(6))])
        hot = rng.randrange(N)
        pp = [(rng.randrange(N), rng.randrange(N)) for _ in range(3)]
        pk = []
        for j in range(n):
            s, d = rng.randrange(N), rng.randrange(N)
            if mode == "hot" and rng.random() < 0.8:
                d = hot
            if mode == "pairs":
                s, d = rng.choice(pp)
            t = rng.randrange(span + 1) if span else (j * 700 if mode == "lone" else 0)
            pk.append([t, s, d, rng.choice(types), rng.randint(1, maxs), rng.choice([0, 0, 1, 5]) if o.get("priority") is None and rng.random() < 0.1 else 0])
        pk.sort(key=lambda p: p[0])
        c["pk"] = pk
        c["scen"] = [rng.randrange(1, 1 << 30), rng.randrange(1, 1 << 30), rng.choice([1, 2, 4, 8]), rng.choice([0, 0, 20, 60]), rng.choice([3, 30, 200])]
        return c

    @staticmethod
    def is_tree(net):
        e = {(min(a, b), max(a, b)) for a, l in enumerate(net["links"]) for b, _ in l}
        return len(e) <= len(net["links"]) - 1

    def execute(self, c, wd):
        cfg = b02.network_cfg(c, wd)
        cfg.update(c["opt"])
        cfg.setdefault("use_noc_latency", 0)
        r, b, op, hp, hd = c["scen"]
        scen = "rseed %d\nbseed %d\nopen %d\nhold %d %d\nstall %d\n" % (r, b, op, hp, hd, 4000)
        if c["mode"] == "lone":
            scen += "topo\n"
        scen += "".join("p %d %d %d %d %d %d\n" % tuple(p) for p in c["pk"])
        p = bsim.run(self.bin["netsim"], wd, cfg, scen, self.cpu_limit)
        if p.timeout:
            return Outcome(inconclusive="time")
        L = p.out.splitlines()
        tag = c["top"] + "." + c["rf"]
        sig = core.h([c["top"], c["rf"], c["kw"], c["opt"], c["pk"]])
        if not L or L[-1] != "END":
            return Outcome([V("crash", "simulation ended with %s: %s %s" % (p.status(), p.err.strip()[-250:], p.out[-100:]))], sig=sig, tags=[tag])
        return self.judge(c, cfg, L, tag, sig)

    def judge(self, c, cfg, L, tag, sig):
        vs = []
        tr = bsim.C[(c["top"], c["rf"])][2] if c["top"] != "anynet" else {"det"}
        base, fid = [], 0
        for p in c["pk"]:
            base.append(fid)
            fid += p[4]
        pid = [j for j, p in enumerate(c["pk"]) for _ in range(p[4])]
        inj, ej, injo, ejo = {}, {}, [], []
        cur = {}
        stuck = done = None
        for l in L:
            f = l.split()
            if not f:
                continue
            if f[0] == "I" and len(f) == 4:
                t, i, vc = map(int, f[1:])
                inj[i] = (t, vc)
                injo.append(i)
            elif f[0] == "E" and len(f) == 10:
                t, n, i, vc, hd, tl, pd, src, ok = map(int, f[1:])
                if i in ej:
                    vs.append(V("duplicate", "flit %d delivered twice" % i))
                    continue
                if i not in inj:
                    vs.append(V("invented", "flit %d delivered, never sent" % i))
                    continue
                ej[i] = t
                ejo.append(i)
                p = c["pk"][pid[i]]
                k = i - base[pid[i]]
                lo, hi = (cfg[bsim.TYPES[p[3]] + "_begin_vc"], cfg[bsim.TYPES[p[3]] + "_end_vc"]) if p[3] < 5 else (0, cfg["num_vcs"] - 1)
                if n != p[2]:
                    vs.append(V("misdelivered", "flit %d of packet %s delivered at node %d" % (k, p, n)))
                if not lo <= vc <= hi:
                    vs.append(V("class", "packet %s delivered on VC %d" % (p, vc)))
                if hd != (k == 0) or tl != (k == p[4] - 1) or pd != pid[i] or src != p[1] or not ok:
                    vs.append(V("content", "flit %d of packet %s changed: head %d tail %d pid %d src %d payload %d" % (k, p, hd, tl, pd, src, ok)))
                was = cur.get((n, vc))
                if (was is None) != (k == 0) or was is not None and was != i:
                    vs.append(V("interleaved", "node %d VC %d: flit %d of packet %d where %s was due" % (n, vc, k, pid[i], was if was is not None else "a head")))
                cur[(n, vc)] = i + 1 if k < p[4] - 1 else None
            elif f[0] == "S":
                stuck = l
            elif f[0] == "D":
                done = int(f[1])
            elif f[0] == "C" and len(f) == 5:
                if f[2] != f[4]:
                    vs.append(V("credits", "%s flits sent, %s credits returned after everything was drained" % (f[2], f[4])))
            elif f[0] == "Q":
                vs.append(V("drain", "after everything was delivered: " + l[2:]))
        if stuck:
            vs.append(V("stuck", "no progress for 4000 cycles: " + stuck[2:]))
        elif done is None or len(ej) != fid:
            if not vs:
                vs.append(V("lost", "%d of %d flits delivered" % (len(ej), fid)))
        if "det" in tr and c["vper"] == 1 and c["split"] and not c["opt"].get("noq"):
            # one VC per class and one route: packets of a class stay in order
            seq = collections.defaultdict(list)
            for i in injo:
                p = c["pk"][pid[i]]
                seq[(p[1], p[2], p[3])].append(i)
            got = collections.defaultdict(list)
            for i in ejo:
                p = c["pk"][pid[i]]
                got[(p[1], p[2], p[3])].append(i)
            for k in got:
                if got[k] != [i for i in seq[k] if i in ej]:
                    vs.append(V("order", "flits from %d to %d of type %d overtake each other" % k))
                    break
        if c["mode"] == "lone" and not vs:
            vs += self.zero_load(c, tr, base, inj, ej, L)
        times = sorted([(inj[base[j]][0], 1) for j in range(len(base)) if base[j] in inj] +
                       [(ej[base[j] + c["pk"][j][4] - 1], -1) for j in range(len(base)) if base[j] + c["pk"][j][4] - 1 in ej])
        lv = mx = 0
        for _, d in times:
            lv += d
            mx = max(mx, lv)
        cross = any(p[1] != p[2] for p in c["pk"])
        seen, uniq = set(), []
        for v in vs:
            if v.kind not in seen:
                seen.add(v.kind)
                uniq.append(v)
        o = c["opt"]
        tags = [tag, "va." + o["vc_allocator"], "sa." + o["sw_allocator"], c["mode"]] + [k for k in ("speculative", "output_buffer_size", "internal_speedup", "buffer_policy", "hold_switch_for_packet", "input_speedup", "output_speedup") if k in o]
        return Outcome(uniq, nontrivial=len(ej) and len(c["pk"]) >= 10 and cross and (mx >= 2 or c["mode"] == "lone"), sig=sig, evals=len(ej), tags=tags)

    @staticmethod
    def neighbours(a, b, k, n):
        x, y = b02.digits(a, k, n), b02.digits(b, k, n)
        return sum(abs(p - q) for p, q in zip(x, y)) == 1

    def zero_load(self, c, tr, base, inj, ej, L):
        """A packet alone in the network takes exactly the configured pipeline and channel delays."""
        o = c["opt"]
        top = c["top"]
        if o.get("internal_speedup") or not ("min" in tr or top == "anynet") or o.get("speculative") and ("adapt" in tr or not o.get("spec_check_elig", 1)):
            return []
        adj, inp, outp = collections.defaultdict(list), {}, {}
        for l in L:
            f = l.split()
            if f[:1] == ["K"] and len(f) == 7:
                if f[3] == "R":
                    if top == "mesh" and not self.neighbours(int(f[1]), int(f[4]), c["kw"]["k"], c["kw"]["n"]):
                        continue       # the unused channels across the edge
                    adj[int(f[1])].append((int(f[4]), int(f[6])))
                else:
                    outp[int(f[4])] = (int(f[1]), int(f[6]))
            elif f[:1] == ["M"] and len(f) == 5:
                inp[int(f[1])] = (int(f[2]), int(f[4]))
        per = o["routing_delay"] + o["st_prepare_delay"] + o["st_final_delay"]
        per += max(o["vc_alloc_delay"], o["sw_alloc_delay"]) if o.get("speculative") else o["vc_alloc_delay"] + o["sw_alloc_delay"]
        last = -1000
        for b, p in zip(base, c["pk"]):
            if b not in inj or b + p[4] - 1 not in ej:
                return []
            t0 = inj[b][0]
            alone = t0 >= last + 260
            last = max(last, ej[b + p[4] - 1])
            if not alone:
                continue
            a, il = inp[p[1]]
            z, ol = outp[p[2]]
            # (cost, other) pairs of the best routes: fewest hops, or least latency in an arbitrary graph
            best, todo = {a: (0, {0})}, [a]
            while todo:
                x = todo.pop(0)
                bx, sx = best[x]
                for y, w in adj[x]:
                    k, e = (w, 1) if top == "anynet" else (1, w)
                    s = {q + e for q in sx}
                    if y not in best or best[y][0] > bx + k:
                        best[y] = (bx + k, s)
                        todo.append(y)
                    elif best[y][0] == bx + k and not s <= best[y][1]:
                        best[y] = (bx + k, best[y][1] | s)
                        todo.append(y)
            if z not in best:
                return []
            k, s = best[z]
            hl = {(q, k) for q in s} if top == "anynet" else {(k, q) for q in s}
            want = sorted({(h + 1) * per + il + w + ol + 1 for h, w in hl})
            got = ej[b] - t0
            if got not in want:
                return [V("latency", "packet %s alone in the network took %d cycles; %s routers of %d cycles and the channels need %s" % (
                    p, got, sorted({h + 1 for h, _ in hl}), per, want))]
        return []

    def shrink(self, c):
        yield from core.shrink_list(c, ["pk"])
        for k in sorted(c["opt"]):
            d = {"routing_delay": 1, "vc_alloc_delay": 1, "sw_alloc_delay": 1, "st_prepare_delay": 0, "st_final_delay": 1, "credit_delay": 0,
                 "output_delay": 0, "vc_allocator": "islip", "sw_allocator": "islip", "alloc_iters": 1, "vc_buf_size": 8, "wait_for_tail_credit": 0}.get(k)
            if d is None:
                n = core.setp(c, ["opt"], {a: b for a, b in c["opt"].items() if a != k})
                if k not in ("arb_type", "spec_sw_allocator"):
                    yield n
            elif c["opt"][k] != d:
                yield core.setp(c, ["opt", k], d)
        for j, p in enumerate(c["pk"][:20]):
            if p[4] > 1:
                yield core.setp(c, ["pk", j, 4], 1)
            if p[0]:
                yield core.setp(c, ["pk", j, 0], 0)
        if c["scen"][3]:
            yield core.setp(c, ["scen", 3], 0)
        if c["scen"][2] > 1:
            yield core.setp(c, ["scen", 2], 1)


CHECK = B01()
