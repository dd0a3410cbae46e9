"""U02: cycle numbers, the log and the event traces record exactly what happened."""
import re
import core
from core import Check, Outcome, V

TAG = {"debug": (4, "DEBUG"), "info": (3, "INFO"), "trace": (2, "TRACE"), "warning": (1, "WARNING"), "critical": (0, "INFO"), "error": (0, "ERROR")}
PERIODS = [5.0, 2.0, 3.32, 1.5, 1.0, 0.7, 1.4, 2.3, 1.1, 0.4, 10.0, 0.001, 6.667, 1.666667, 3.3333]
ANSI = re.compile("\033\\[[0-9;]*m")


def ps(p):
    return int(p * 1000 + 0.5)


def cycles(t, p):
    return -(-t // ps(p))


class U02(Check):
    prop = "U02"
    targets = ["unitl"]
    technique = "model-based (stateful) property testing of the log, the event traces and the cycle counter at generated simulation times"
    rule = "a history with messages both above and below the verbosity, events of two traces and a cycle number read on a clock edge"
    quick_n = 1500
    thorough_n = 40000
    cpu_limit = 30
    assumptions = ["messages and module names are one line of text", "less than 2^31 cycles"]

    def gen(self, rng, i, tier):
        period = rng.choice(PERIODS) if rng.random() < 0.6 else round(rng.uniform(0.1, 12), 3)
        nt = rng.choice([0, 1, 2, 3, 8])
        verb = rng.choice([0, 1, 2, 3, 4, 4, 5])
        ops, t = [], 0
        big = 1 << 30 if period > 0.01 else 1 << 20
        for k in range(rng.choice([10, 40, 100])):
            r = rng.random()
            if r < 0.3:
                d = rng.random()
                if d < 0.45:
                    e = cycles(t, period) * ps(period) + rng.choice([0, 1, 1, 2, 3, 10, 1000, rng.randrange(big // ps(period) + 1)]) * ps(period)
                elif d < 0.6:
                    e = (cycles(t, period) + rng.randint(1, 5)) * ps(period) + rng.choice([-1, 1])
                else:
                    e = t + rng.choice([1, 2, 499, 500, 999, 1000, rng.randrange(1, 20000)])
                if e > t:
                    ops.append(["adv", e - t])
                    t = e
            elif r < 0.6:
                lv = rng.choice(["debug", "info", "trace", "warning", "critical"])
                ops.append(["log", lv, rng.choice(["m", "mod", "sys.dut.lane0", "x1"]), rng.choice([0, 1, 1, 2, 2]),
                            rng.choice(["hello world", "x=5", "sent  two spaces", "100%s %d", "[INFO] nested", "e", "value: " + str(rng.randrange(1 << 30))])])
            elif r < 0.85 and nt:
                ops.append(["rec", rng.randrange(nt)])
            elif r < 0.9:
                ops.append(["dump"])
            else:
                q = rng.choice([period, rng.choice(PERIODS), round(rng.uniform(0.1, 12), 3)])
                if q < 0.01 and t > 1 << 30:
                    q = period
                ops.append(["cyc", q])
        if rng.random() < 0.25:
            ops.insert(rng.randrange(len(ops) // 2, len(ops) + 1), ["log", "error", "m", rng.choice([0, 1, 2]), "fatal problem"])
        return {"period": period, "nt": nt, "verb": verb, "lhow": rng.choice(["set", "ctor"]), "thow": rng.choice(["set", "ctor"]), "ops": ops}

    def execute(self, c, wd):
        open(wd + "/knobs", "w").write("sim_driver_period %s\n" % c["period"])
        L = ["knobs knobs", "logset %s %d sim.log" % (c["lhow"], c["verb"]), "traceset %s %d sim.trace" % (c["thow"], c["nt"])]
        for o in c["ops"]:
            L.append("dump sim.trace" if o[0] == "dump" else " ".join(map(str, o)))
        r = core.run_proc([self.bin["unitl"]], cwd=wd, cpu=self.cpu_limit, stdin=("\n".join(L) + "\n").encode())
        if r.timeout:
            return Outcome(inconclusive="time")
        # the model
        t, out, file, tr, rc = 0, [], [], [[] for _ in range(c["nt"])], 0
        shown = hidden = edge = 0
        for o in c["ops"]:
            if o[0] == "adv":
                t += o[1]
            elif o[0] == "log":
                at, tag = TAG[o[1]]
                if c["verb"] >= at:
                    s = "[%s] %s %s" % (tag, o[2], ("@ %d: " % cycles(t, c["period"]) if o[1] == "trace" else "") + o[4])
                    out.append(s)
                    if o[3]:
                        file.append(s)
                    shown += 1
                else:
                    hidden += 1
                if o[1] == "error":
                    rc = 1
                    break
            elif o[0] == "rec":
                tr[o[1]].append(cycles(t, c["period"]))
            elif o[0] == "dump":
                out += ["@ dump " + " ".join(map(str, x)) for x in tr] + ["@ dumped"]
            elif o[0] == "cyc":
                out.append("@ cyc %d %d" % (cycles(t, c["period"]), cycles(t, o[1])))
                edge += t % ps(c["period"]) == 0 and t > 0
        if not rc:
            out.append("@ END")
        vs = []
        if r.rc != rc:
            vs.append(V("status", "ended with %s, expected exit%d: %s" % (r.status(), rc, r.err[-200:])))

        def norm(text):
            return [" ".join(ANSI.sub("", l).split()) for l in text.split("\n") if ANSI.sub("", l).strip()]
        try:
            ftxt = open(wd + "/sim.log").read()
        except OSError:
            ftxt = ""
        for name, got, want in (("output", norm(r.out), out), ("logfile", norm(ftxt), file)):
            got = [l for l in got if not l.startswith(("SystemC", "Copyright", "ALL RIGHTS"))]
            want = [" ".join(w.split()) for w in want]
            if got != want:
                k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
                w, g = want[k] if k < len(want) else "(nothing)", got[k] if k < len(got) else "(nothing)"
                kind = "cycle" if w[:5] == g[:5] == "@ cyc" or (w.startswith("[TRACE]") and g.startswith("[TRACE]")) else "trace" if w.startswith("@ dump") else name
                vs.append(V(kind, "%s line %d is %r, should be %r (verbosity %d, period %s)" % (name, k, g, w, c["verb"], c["period"])))
        return Outcome(vs, nontrivial=bool(shown and hidden and edge and sum(1 for x in tr if x) >= 2), sig=core.h(c), evals=len(out) + len(file),
                       tags=["verbosity %d" % c["verb"]] + (["error"] if rc else []) + (["edge"] if edge else []))

    def shrink(self, c):
        for x in core.shrink_list(c, ["ops"]):
            yield x
        for p in (5.0, 1.4, 2.3):
            if c["period"] != p:
                yield dict(c, period=p)


CHECK = U02()
