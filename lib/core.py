"""Generated-input search engine shared by all checks.

A check provides gen / run / judge / classify / shrink; this module generates
cases from VERIF_SEED, runs them in parallel, confirms and shrinks failures,
separates known findings, and writes the evidence file.
"""
import collections, hashlib, json, multiprocessing, os, random, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B  # noqa: E402

NPROC = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))


class V:
    """One violation: `kind` is a stable short class, `msg` the details."""

    def __init__(self, kind, msg, key=None):
        self.kind, self.msg, self.key = kind, msg, key or kind

    def __repr__(self):
        return "%s: %s" % (self.kind, self.msg)


class Inconclusive(Exception):
    pass


class Outcome:
    """Result of one case."""

    def __init__(self, violations=(), nontrivial=False, sig="", evals=1, tags=(), inconclusive=None, ntcount=None, sigs=None):
        self.violations = list(violations)
        self.nontrivial = nontrivial
        self.sig = sig              # distinctness key of a non-trivial case
        self.evals = evals          # how many evaluations of the property
        self.tags = list(tags)      # classification labels
        self.inconclusive = inconclusive
        self.sigs = sigs            # several distinctness keys for batched cases


class Check:
    prop = ""
    targets = []
    technique = ""
    level_note = ""
    rule = ""
    quick_n = 100
    thorough_n = 2000
    quick_cap = 240.0       # seconds of search in the quick tier
    thorough_cap = 780.0
    min_quick = 0.0
    cpu_limit = 60
    assumptions = []

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, case, wd):
        """Run one case in scratch directory wd -> Outcome."""
        raise NotImplementedError

    def shrink(self, case):
        """Yield simpler candidates."""
        return iter(())

    def size(self, case):
        return len(json.dumps(case))

    def describe(self, case):
        s = json.dumps(case)
        return case if len(s) < 1500 else {"summary": s[:1500] + "..."}

    def prepare(self):
        pass


# ------------------------------------------------------------------ helpers
class ProcResult:
    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def status(self):
        if self.timeout:
            return "cpu-limit"
        if self.rc < 0:
            try:
                return signal.Signals(-self.rc).name
            except ValueError:
                return "signal%d" % -self.rc
        return "exit%d" % self.rc


def run_proc(cmd, cwd=None, cpu=60, env=None, stdin=None, mem_gb=6, wall=600, fsize_mb=2000):
    def lim():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize_mb << 20, fsize_mb << 20))
    e = dict(os.environ)
    e["SYSTEMC_DISABLE_COPYRIGHT_MESSAGE"] = "1"
    e["MALLOC_PERTURB_"] = "165"        # fresh and freed heap memory holds junk
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lim, env=e, start_new_session=True)
    try:
        out, err = p.communicate(stdin, timeout=wall)
        to = p.returncode in (-signal.SIGXCPU, ) or (p.returncode == -signal.SIGKILL)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        to = True
    return ProcResult(p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace"), to)


def h(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


_check = None


def _exec(check, case):
    wd = tempfile.mkdtemp(prefix="verif_%s_" % check.prop)
    try:
        return check.execute(case, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def _work(args):
    i, seed, tier, case = args
    try:
        if case is None:
            rng = random.Random("%s:%s:%s:%d" % (seed, _check.prop, tier, i))
            case = _check.gen(rng, i, tier)
        t = time.time()
        o = _exec(_check, case)
        return i, case, o, time.time() - t, None
    except Inconclusive as e:
        return i, case, Outcome(inconclusive=str(e)), 0, None
    except Exception:
        return i, case, None, 0, traceback.format_exc()


def _ddmin(lst):
    """Candidates with parts of a list removed, big parts first."""
    n = len(lst)
    k = n
    while k >= 1:
        for s in range(0, n, k):
            if not (s == 0 and k >= n):
                yield lst[:s] + lst[s + k:]
            elif n:
                yield []
        k //= 2


def getp(c, path):
    for k in path:
        c = c[k]
    return c


def setp(c, path, v):
    c = json.loads(json.dumps(c))
    d = c
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = v
    return c


def shrink_list(case, path):
    l = getp(case, path)
    for cand in _ddmin(l):
        yield setp(case, path, cand)


def shrink_int(case, path, targets):
    v = getp(case, path)
    for t in targets:
        if t != v:
            yield setp(case, path, t)


def do_shrink(check, case, kind, cap, pool=None):
    t0 = time.time()
    best, tried = case, 0
    improved = True
    while improved and time.time() - t0 < cap:
        improved = False
        gen = check.shrink(best)
        done = False
        while not done and time.time() - t0 < cap:
            batch = []
            for c in gen:
                if check.size(c) < check.size(best) or c != best:
                    batch.append(c)
                if len(batch) >= NPROC:
                    break
            else:
                done = True
            if not batch:
                break
            res = pool.map(_work, [(j, 0, "shrink", c) for j, c in enumerate(batch)]) if pool else [_work((0, 0, "shrink", c)) for c in batch]
            tried += len(batch)
            for _, c, o, _, err in res:
                if o and any(v.kind == kind for v in o.violations):
                    best, improved, done = c, True, True
                    break
    return best, tried


def load_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            d = json.load(f)
    except OSError:
        return []
    return [x for x in d.get("findings", []) if x["property"] == prop]


def match_finding(findings, v, case):
    for f in findings:
        if f["key"] == v.key:
            return f
    return None


def main(check, tier, replay=None):
    global _check
    _check = check
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if replay:
        with open(replay) as f:
            v = json.load(f)["case"].get("v")
        some = [t for t in check.targets if v and t.endswith("_" + str(v))]
        check.targets = some or check.targets
    try:
        check.bin = B.build(check.targets) if check.targets else {}
        if not check.targets:
            B.sync_locked()
    except B.BuildError:
        # the tree does not build: nothing can be decided here
        print("ERROR: /repo does not build", flush=True)
        return 2
    check.prepare()
    B.log("built in %.1fs" % (time.time() - t0))
    findings = load_findings(check.prop)

    if replay:
        with open(replay) as f:
            rp = json.load(f)
        bad = 0
        o = _exec(check, rp["case"])
        for v in o.violations:
            f = match_finding(findings, v, rp["case"])
            if f:
                print("KNOWN-FINDING: property=%s %s" % (check.prop, f["what"]))
            else:
                print(v)
                bad = 1
        if o.inconclusive:
            print("inconclusive: %s" % o.inconclusive)
        if bad:
            print("VIOLATION property=%s replay=%s" % (check.prop, replay))
        else:
            print("replay: no violation; tags %s" % o.tags)
        return bad

    n = check.quick_n if tier == "quick" else check.thorough_n
    cap = check.quick_cap if tier == "quick" else check.thorough_cap
    if os.environ.get("VERIF_CAP"):
        cap = float(os.environ["VERIF_CAP"])
    # committed cases first
    jobs = []
    cdir = os.path.join(VERIF, "corpus", check.prop)
    if os.path.isdir(cdir):
        for fn in sorted(os.listdir(cdir)):
            with open(os.path.join(cdir, fn)) as f:
                jobs.append((-1 - len(jobs), seed, tier, json.load(f)["case"]))
    ncorpus = len(jobs)
    jobs += [(i, seed, tier, None) for i in range(n)]

    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(NPROC, maxtasksperchild=200)
    evals = 0
    sigs = set()
    tags = collections.Counter()
    samples, fails, known = [], [], {}
    incon = collections.Counter()
    ran = 0
    nt = 0
    errors = []
    start = time.time()
    stop = False
    try:
        it = pool.imap_unordered(_work, jobs, chunksize=1)
        for _ in range(len(jobs)):
            left = cap - (time.time() - start)
            if left <= 0:
                break
            try:
                i, case, o, dt, err = it.next(timeout=left)
            except multiprocessing.TimeoutError:
                break
            if err:
                errors.append(err)
                B.log(err)
                continue
            ran += 1
            for t in o.tags:
                tags[t] += 1
            if o.inconclusive:
                incon[o.inconclusive] += 1
                continue
            evals += o.evals
            if o.nontrivial:
                nt += 1
                if o.sigs is not None:
                    sigs.update(o.sigs)
                else:
                    sigs.add(o.sig or h(case))
                if len(samples) < 6:
                    samples.append(check.describe(case))
            new = []
            for v in o.violations:
                f = match_finding(findings, v, case)
                if f:
                    known.setdefault(f["key"], f)
                else:
                    new.append(v)
            if new:
                fails.append((i, case, new))
                B.log("case %d: %s" % (i, new[:3]))
                if len(fails) >= (1 if tier == "quick" else 3) or time.time() - start > 60:
                    stop = True
            if stop:
                break
    finally:
        pool.terminate()
        pool.join()

    violations = []
    rc = 0
    if fails:
        pool = ctx.Pool(NPROC)
        try:
            seen = set()
            fails.sort(key=lambda f: check.size(f[1]))
            for i, case, vs in fails:
                kind = vs[0].kind
                if kind in seen:
                    continue
                # the failure must happen again
                rep = pool.map(_work, [(j, 0, "confirm", case) for j in range(3)])
                again = [r for r in rep if r[2] and any(v.kind == kind and not match_finding(findings, v, case) for v in r[2].violations)]
                if len(again) < (3 if "cpu-limit" in kind else 2):
                    B.log("case %d not confirmed (%d of 3): %s" % (i, len(again), vs[:2]))
                    tags["unconfirmed"] += 1
                    continue
                seen.add(kind)
                small, tried = do_shrink(check, case, kind, float(os.environ.get("VERIF_SHRINK", 45 if tier == "quick" else 120)), pool)
                o2 = _work((0, 0, "final", small))[2]
                msg = [repr(v) for v in o2.violations] if o2 else []
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                rp = os.path.join(VERIF, "replays", "%s_%s.json" % (check.prop, h(small)))
                with open(rp, "w") as f:
                    json.dump({"property": check.prop, "kind": kind, "seed": seed, "index": i, "tier": tier,
                               "messages": msg[:10], "case": small}, f, indent=1)
                for m in msg[:5]:
                    print("  " + m[:600])
                print("VIOLATION property=%s replay=%s" % (check.prop, rp), flush=True)
                violations.append({"kind": kind, "replay": rp, "messages": msg[:5], "shrink_attempts": tried})
                rc = 1
                break
        finally:
            pool.terminate()
            pool.join()
    for f in findings:
        # a listed finding is reported whenever it is listed; the check confirms it on its own replay case
        st = ""
        if f.get("case") is not None:
            try:
                o = _exec(check, f["case"])
                st = " (reproduced)" if any(v.key == f["key"] for v in o.violations) else " (not reproduced)"
                for v in o.violations:
                    if not match_finding(findings, v, f["case"]):
                        print("  " + repr(v)[:600])
            except Exception:
                st = ""
        print("KNOWN-FINDING: property=%s %s%s" % (check.prop, f["what"], st), flush=True)

    wall = time.time() - t0
    cov = {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": check.rule, "samples": samples,
           "cases_run": ran, "corpus_cases": ncorpus, "cases_planned": len(jobs), "classes": dict(tags.most_common(60)),
           "inconclusive": dict(incon), "harness_errors": len(errors)}
    ev = {"property": check.prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "wall_s": round(wall, 1), "assumptions": check.assumptions, "violations": violations,
          "known_findings": [f["key"] for f in findings]}
    tmp = os.path.join(evdir, check.prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(evdir, check.prop + ".json"))
    print("%s %s: %d cases, %d evaluations, %d distinct non-trivial, %d inconclusive, %d errors, %.1fs" %
          (check.prop, tier, ran, evals, len(sigs), sum(incon.values()), len(errors), wall), flush=True)
    if errors and rc == 0:
        print("ERROR: %d cases broke the harness:\n%s" % (len(errors), errors[0][-800:]))
        if ran < len(errors):
            return 2
    return rc
