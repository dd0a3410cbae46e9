"""S01: running the same simulation again gives the same behaviour and the same results."""
import copy, importlib, os, random, shutil
import core, dram, memc, noc, b02, bsim
from core import Check, Outcome, V

KINDS = [("n01", 4), ("n03", 10), ("m01", 4), ("r02", 3), ("c01", 1), ("t01", 1), ("d01", 2), ("b01", 4)]
SKIP = ("radsim_knobs", "scenario.txt", "s.txt")


def mod(k):
    return importlib.import_module(k).CHECK


def tree(d, wd, logs):
    """Every result file of a run, with the run's own directory replaced"""
    out = {}
    for root, dirs, files in os.walk(d):
        dirs[:] = sorted(x for x in dirs if not os.path.islink(os.path.join(root, x)))
        for f in sorted(files):
            p = os.path.join(root, f)
            if f in SKIP or f.endswith((".place", ".clks", ".ini", ".dat", ".cfg")) or (f == "sim.log" and not logs) or os.path.islink(p):
                continue
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read().replace(wd.encode(), b"WD")
    return out


class S01(Check):
    prop = "S01"
    targets = ["simh_a", "simh_b", "simh_c", "simh_m", "dramh", "netsim"]
    technique = "metamorphic testing: each generated simulation is run twice under different memory layout, uninitialised-memory contents, directory, environment, log verbosity and knob order, and the complete logs and result files are compared"
    rule = "both runs ended and the log has at least 20 events"
    quick_n = 700
    thorough_n = 12000
    cpu_limit = 120
    assumptions = ["wall-clock figures and the text of the debug log at different verbosities are not results"]

    def gen(self, rng, i, tier):
        ks = [k for k, w in KINDS for _ in range(w)]
        k = rng.choice(ks)
        for j in range(50):
            c = mod(k).gen(rng, i, "quick")
            if k == "b01" and len(c["pk"]) > 3000:
                continue
            break
        return {"k": k, "c": c, "alt": {"perturb": rng.randint(1, 255), "env": rng.randint(0, 5000), "dir": rng.choice(["x", "yy" * 20, "z" * 7]),
                                        "verb": rng.choice([None, None, 0, 1, 2, 3, 5]), "shuffle": rng.randint(0, 1 << 30) if rng.random() < 0.5 else None}}

    def run_one(self, case, wd, alt):
        k, c = case["k"], case["c"]
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        env = dict(os.environ)
        if alt:
            env["MALLOC_PERTURB_"] = str(alt["perturb"])
            env["VERIF_PAD"] = "p" * alt["env"]
            # stack contents below the first frame and the heap start move with these
            env["MALLOC_ARENA_MAX"] = "1"
        if k == "d01":
            keep = core.run_proc

            def with_env(cmd, cwd=None, cpu=60, env=env, **kw):
                return keep(cmd, cwd=cwd, cpu=cpu, env=env, **kw)
            dram.run_proc = with_env
            try:
                r = dram.run(self, c, wd)
            finally:
                dram.run_proc = keep
            ok = r.end is not None and not r.p.timeout
            ev = "\n".join(x for x in r.p.out.splitlines() if x.startswith("@"))
            return ok, ev, tree(wd, wd, True), r.p
        if k == "b01":
            cfg = b02.network_cfg(c, wd)
            cfg.update(c["opt"])
            cfg.setdefault("use_noc_latency", 0)
            r, b, op, hp, hd = c["scen"]
            scen = "rseed %d\nbseed %d\nopen %d\nhold %d %d\nstall %d\n" % (r, b, op, hp, hd, 4000) + "".join("p %d %d %d %d %d %d\n" % tuple(p) for p in c["pk"])
            p = bsim.run(self.bin["netsim"], wd, cfg, scen, self.cpu_limit, env=env)
            L = p.out.splitlines()
            return bool(L) and L[-1] == "END", p.out.replace(wd, "WD"), {}, p
        c = copy.deepcopy(c)
        if alt and alt["verb"] is not None:
            c["verb"] = alt["verb"]
        if k == "m01":
            memc.write(c, wd)
        else:
            noc.write(c, wd)
        if alt and alt["shuffle"] is not None:
            p = wd + "/sim/radsim_knobs"
            L = open(p).read().split("\n")
            L = [x for x in L if x]
            random.Random(alt["shuffle"]).shuffle(L)
            open(p, "w").write("\n".join(L) + "\n")
        r, g = noc.simulate(self, c, wd, env=env)
        ok = r.rc == 0 and g.end is not None and not r.timeout
        logs = not alt or alt["verb"] is None
        return ok, g.raw.replace(wd, "WD"), tree(wd, wd, False), r

    def execute(self, case, wd):
        o = Outcome()
        a = wd + "/a"
        b = wd + "/" + case["alt"]["dir"] + "b"
        ok1, ev1, f1, r1 = self.run_one(case, a, None)
        ok2, ev2, f2, r2 = self.run_one(case, b, case["alt"])
        o.tags = [case["k"]]
        o.sig = core.h(case["c"])
        n = ev1.count("\n")
        o.evals = max(1, n)
        if not ok1 and not ok2:
            o.inconclusive = "both runs ended early"
            return o
        if ok1 != ok2:
            if r1.timeout or r2.timeout:
                o.inconclusive = "time"
                return o
            o.violations.append(V("ends", "one run ends, the other does not: %s / %s: %s" % (r1.status(), r2.status(), (r1.err + r2.err)[-200:]), "ends"))
            return o
        o.nontrivial = n >= 20
        if ev1 != ev2:
            for i, (x, y) in enumerate(zip(ev1.split("\n") + [""], ev2.split("\n") + [""])):
                if x != y:
                    o.violations.append(V("differs", "event %d differs between two runs: '%s' / '%s'" % (i, x[:120], y[:120]), "differs"))
                    break
        else:
            for p in sorted(set(f1) | set(f2)):
                if f1.get(p) != f2.get(p):
                    x, y = f1.get(p), f2.get(p)
                    if x is not None and y is not None:
                        for l1, l2 in zip(x.split(b"\n"), y.split(b"\n")):
                            if l1 != l2:
                                x, y = l1, l2
                                break
                    o.violations.append(V("file", "result file %s differs between two runs: %s / %s" % (p, str(x)[:100], str(y)[:100]), "file"))
                    break
        return o

    def shrink(self, case):
        for c in mod(case["k"]).shrink(case["c"]):
            yield dict(case, c=c)
        for key, val in (("verb", None), ("shuffle", None), ("env", 0)):
            if case["alt"][key] != val:
                yield dict(case, alt=dict(case["alt"], **{key: val}))


CHECK = S01()
