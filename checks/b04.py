"""B04: network configuration files are parsed faithfully."""
import copy, json, os
import core
from core import Check, Outcome, V

DEF = json.load(open(os.path.join(core.VERIF, "lib", "b04_defaults.json")))
NUM = set(DEF["I"]) | set(DEF["F"])
BOTH = set(DEF["S"]) & NUM
ALPH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
KNOWN = sorted(set(DEF["S"]) | NUM)


def word(rng, n=None):
    n = n or rng.choice([1, 2, 3, 6, 12])
    return rng.choice(ALPH + "_") + "".join(rng.choice(ALPH + "0123456789_-.") for _ in range(n - 1))


def strval(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice(["mesh", "anynet", "islip", "separable_input_first", "select(2)", "tree(2,round_robin)", "time",
                           "-", "_x", "noc.cfg"])
    if r < 0.5:
        return rng.choice(["/", "./", "../", ""]) + "/".join(word(rng) for _ in range(rng.randint(1, 4)))
    if r < 0.6:
        return word(rng, rng.choice([40, 300, 3000]))
    if r < 0.7:
        return "%s(%s)" % (word(rng), word(rng))
    return word(rng)


def intlit(rng):
    v = rng.choice([0, 1, 2, 7, 8, 10, 63, 64, 100, 255, 1000, 65536, 2147483647, -2147483648, rng.randint(-10 ** 6, 10 ** 6), -1])
    if v >= 0 and rng.random() < 0.1:
        return "0" * rng.randint(1, 3) + str(v), v
    return str(v), v


def fltlit(rng):
    s = rng.choice(["0.5", ".5", "1.0", "-0.25", "1e-3", "1.5E+10", "12.0", "-.125", "2e5", "0.0", "%.6f" % rng.uniform(-10, 1000),
                    "%.3e" % rng.uniform(0, 1e9), repr(rng.random()), "-1.25e-2", "1E6"])
    return s, float(s)


def listlit(rng, kind, depth=0):
    n = rng.choice([1, 2, 3, 5, 12])
    el = []
    for _ in range(n):
        if kind == "i":
            el.append(intlit(rng)[0])
        elif kind == "f":
            el.append(rng.choice(["0.5", "1", "-2.25", "3.75", "0.001", "10.0"]))
        elif depth == 0 and rng.random() < 0.15:
            el.append(listlit(rng, "s", 1))
        else:
            el.append(rng.choice([word(rng), "f(%s)" % word(rng, 3), str(rng.randint(0, 99))]))
    return "{" + ",".join(el) + "}"


def split_list(s):
    """Elements of a list value, nested lists kept as text."""
    if s == "":
        return []
    if s[0] != "{":
        return [s]
    out, cur, d = [], "", 0
    for ch in s[1:-1]:
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
            continue
        d += (ch == "{") - (ch == "}")
        cur += ch
    return out + [cur]


def gap(rng, must=False):
    r = rng.random()
    if r < 0.5 and not must:
        return rng.choice(["", " "])
    if r < 0.8:
        return rng.choice([" ", "  ", "\t", " \t ", "\n", "\r\n"])
    return rng.choice([" ", "\t", "\n"]) + "//" + rng.choice(["", " note", " k = 3;", " {", " \"x\" @#$%^&*", "// x=1; " + "z" * 80]) + "\n"


def gen_assign(rng, field=None):
    """[field, literal, kind] with kind s/i/f/l."""
    if field is None:
        field = rng.choice(KNOWN) if rng.random() < 0.7 else rng.choice(sorted(BOTH))
    kinds = []
    if field in DEF["S"]:
        kinds += ["s", "l"]
    if field in DEF["I"]:
        kinds += ["i"]
    if field in DEF["F"]:
        kinds += ["f", "f", "i"]
    k = rng.choice(kinds)
    if k == "s":
        return [field, strval(rng), "s"]
    if k == "l":
        return [field, listlit(rng, rng.choice("ifs")), "s"]
    if k == "i":
        return [field, intlit(rng)[0], "i"]
    return [field, fltlit(rng)[0], "f"]


def gen_bad(rng):
    """A piece of text that must be rejected."""
    k = rng.choice(["unknown", "unknown", "type", "type", "semi", "eq", "junk", "digit"])
    if k == "unknown":
        f = rng.choice([rng.choice(KNOWN) + "x", rng.choice(KNOWN).upper(), "num_vc", "kk", word(rng, 9)])
        while f in DEF["S"] or f in NUM:
            f += "_"
        return k, "%s = %s;" % (f, rng.choice(["3", "0.5", "abc", "{1,2}"]))
    if k == "type":
        r = rng.randrange(3)
        if r == 0:
            return k, "%s = %s;" % (rng.choice(sorted(set(DEF["I"]) - BOTH)), rng.choice(["abc", "{1,2}", "x1"]))
        if r == 1:
            return k, "%s = %s;" % (rng.choice(sorted(set(DEF["I"]) - set(DEF["F"]))), rng.choice(["0.5", "1e3"]))
        return k, "%s = %s;" % (rng.choice(sorted(set(DEF["S"]) - NUM)), rng.choice(["5", "0.5", "-3"]))
    if k == "semi":
        return k, "k = 3\nn = 2;"
    if k == "eq":
        return k, rng.choice(["k 3;", "k == 3;", "= 3;", "k = ;", "k = 3 4;"])
    if k == "junk":
        return k, rng.choice(["#", "@", "k = 'x';", "k = \"3\";", "%", "k = 3; !"])
    return k, "topology = 3mesh;"


class B04(Check):
    prop = "B04"
    targets = ["bsconf"]
    technique = ("grammar-based generation of configuration texts (all parameters, value kinds, layouts, repeats, several files and "
                 "override strings) judged by a reference model of last-assignment-wins over the defaults; write/parse round trip")
    rule = "at least three assignments, or a text that must be rejected"
    quick_n = 3000
    thorough_n = 60000
    cpu_limit = 10
    assumptions = ["integers fit 32 bits", "string values follow the lexer's character set and contain no //",
                   "a text has at least one assignment"]

    def gen(self, rng, i, tier):
        nconf = rng.choice([1, 1, 1, 2])
        c = {"nconf": nconf, "early": rng.random() < 0.5, "steps": [], "bad": None, "write": rng.random() < 0.4}
        pool = [rng.choice(KNOWN) for _ in range(3)] + [rng.choice(sorted(BOTH))]
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([1, 2, 3, 5, 10, 40]) if rng.random() < 0.97 else 1500
            toks = []
            for _ in range(n):
                f, lit, k = gen_assign(rng, rng.choice(pool) if rng.random() < 0.4 else None)
                toks.append([gap(rng), f, gap(rng), gap(rng), lit, k, gap(rng)])
            kind = rng.choice(["file", "file", "str"])
            if kind == "str":
                toks = toks[:rng.choice([1, 2, 5])] if rng.random() < 0.8 else toks
            c["steps"].append({"op": kind, "k": rng.randrange(nconf), "toks": toks, "tail": gap(rng) if kind == "file" else ""})
        if rng.random() < 0.25:
            s = rng.randrange(len(c["steps"]))
            k, t = gen_bad(rng)
            c["bad"] = {"step": s, "pos": rng.randint(0, len(c["steps"][s]["toks"])), "text": t, "kind": k}
            if c["steps"][s]["op"] == "str":
                c["steps"][s]["op"] = "file"
        return c

    def text(self, c, si):
        st = c["steps"][si]
        out = []
        for j, (g0, f, g1, g2, lit, k, g3) in enumerate(st["toks"]):
            if c["bad"] and c["bad"]["step"] == si and c["bad"]["pos"] == j:
                out.append("\n" + c["bad"]["text"] + "\n")
            last = j == len(st["toks"]) - 1
            out.append(g0 + f + g1 + "=" + g2 + lit + g3 + (";" if not (last and st["op"] == "str") else ""))
        if c["bad"] and c["bad"]["step"] == si and c["bad"]["pos"] >= len(st["toks"]):
            out.append("\n" + c["bad"]["text"] + "\n")
        return "".join(out) + st["tail"]

    def execute(self, c, wd):
        cmds = []
        if c["early"]:
            cmds += ["new %d" % k for k in range(c["nconf"])]
        made = set(range(c["nconf"])) if c["early"] else set()
        total = 0
        for i, st in enumerate(c["steps"]):
            p = "%s/t%d" % (wd, i)
            with open(p, "w", newline="") as f:
                f.write(self.text(c, i))
            if st["k"] not in made:
                made.add(st["k"])
                cmds.append("new %d" % st["k"])
            cmds.append("%s %d %s" % (st["op"], st["k"], p))
            total += len(st["toks"])
        for k in sorted(made):
            cmds.append("dump %d" % k)
        if c["write"]:
            k0 = min(made)
            cmds += ["write %d %s/w" % (k0, wd), "new 9", "file 9 %s/w" % wd, "dump 9"]
        r = core.run_proc([self.bin["bsconf"]], cpu=self.cpu_limit, stdin=("\n".join(cmds) + "\n").encode())
        nt = total >= 3 or bool(c["bad"])
        tags = ["bad:" + c["bad"]["kind"]] if c["bad"] else ["good"]
        v = self.judge(c, r, made)
        return Outcome(v, nt, core.h(c), evals=total, tags=tags)

    def judge(self, c, r, made):
        if r.timeout:
            return [V("hang", "no answer within the CPU limit")]
        if r.rc < 0:
            return [V("crash", "%s: %s" % (r.status(), r.err.strip()[-200:]))]
        ended = r.out.rstrip().endswith("END")
        if c["bad"]:
            if ended:
                return [V("accepted", "a text with %r was accepted" % c["bad"]["text"])]
            if r.rc == 0:
                return [V("accepted", "a text with %r ended with status 0" % c["bad"]["text"])]
            return []
        if not ended:
            return [V("rejected", "a correct text was rejected: status %s, %s" % (r.rc, r.err.strip()[-200:]))]
        model = {}
        for k in list(made) + [9]:
            m = {"S": dict(DEF["S"]), "N": dict(DEF["I"])}
            m["N"].update(DEF["F"])
            model[k] = m
        for st in c["steps"]:
            m = model[st["k"]]
            for _, f, _, _, lit, k, _ in st["toks"]:
                if k == "s":
                    m["S"][f] = lit
                else:
                    m["N"][f] = float(lit) if (k == "f" or f in DEF["F"]) else int(lit)
                    if f in m["S"]:
                        m["S"][f] = ""       # the later number replaces the string
        model[9] = model[min(made)]
        got, cur = {}, None
        for l in r.out.split("\n"):
            p = l.split(" ", 2)
            if p[0] == "D":
                cur = got.setdefault(int(p[1]), {"S": {}, "N": {}, "AS": {}, "AI": {}, "AF": {}})
            elif p[0] == "S":
                cur["S"][p[1]] = p[2] if len(p) > 2 else ""
            elif p[0] == "I":
                cur["N"][p[1]] = int(p[2])
            elif p[0] == "F":
                cur["N"][p[1]] = float(p[2])
            elif p[0] in ("AS", "AI", "AF"):
                cur[p[0]][p[1]] = p[2].split() if len(p) > 2 else []
        v = []
        for k in sorted(got):
            m, g = model[k], got[k]
            rt = k == 9
            for f in sorted(m["S"]):
                x, y = m["S"][f], g["S"].get(f)
                if x != y:
                    kind = "string" if x != "" or f not in BOTH else "later-number"
                    v.append(V(("written-" if rt else "") + kind, "%s: %r, should be %r" % (f, y, x)))
                    continue
                el = split_list(x)
                if el != g["AS"].get(f):
                    v.append(V("list", "%s=%s: elements %s, should be %s" % (f, x, g["AS"].get(f), el)))
                try:
                    ii = [int(e) for e in el]
                    if all(-2 ** 31 <= e < 2 ** 31 for e in ii) and [int(e) for e in g["AI"].get(f, [])] != ii:
                        v.append(V("list", "%s=%s: integers %s, should be %s" % (f, x, g["AI"].get(f), ii)))
                except ValueError:
                    pass
                try:
                    ff = [float(e) for e in el]
                    if [float(e) for e in g["AF"].get(f, [])] != ff:
                        v.append(V("list", "%s=%s: reals %s, should be %s" % (f, x, g["AF"].get(f), ff)))
                except ValueError:
                    pass
            for f in sorted(m["N"]):
                # where a string is in force, the number is not used
                if f in BOTH and m["S"][f] != "":
                    continue
                x, y = m["N"][f], g["N"].get(f)
                if x != y:
                    v.append(V(("written-" if rt else "") + "number", "%s: %s, should be %s" % (f, y, x)))
        return v[:3]

    def shrink(self, c):
        for s in range(len(c["steps"])):
            if len(c["steps"]) > 1 and not (c["bad"] and c["bad"]["step"] == s):
                d = copy.deepcopy(c)
                del d["steps"][s]
                if d["bad"] and d["bad"]["step"] > s:
                    d["bad"]["step"] -= 1
                yield d
        if c["write"]:
            yield dict(copy.deepcopy(c), write=False)
        if c["early"]:
            yield dict(copy.deepcopy(c), early=False)
        for s, st in enumerate(c["steps"]):
            n = len(st["toks"])
            k = n // 2
            while k >= 1:
                for a in range(0, n, k):
                    if n - k >= 1 or c["bad"]:
                        d = copy.deepcopy(c)
                        del d["steps"][s]["toks"][a:a + k]
                        if d["bad"] and d["bad"]["step"] == s:
                            d["bad"]["pos"] = min(d["bad"]["pos"], len(d["steps"][s]["toks"]))
                        if d["steps"][s]["toks"] or d["bad"]:
                            yield d
                k //= 2
            if n <= 6:
                for a in range(n):
                    for q, z in ((0, "\n"), (2, " "), (3, " "), (6, "")):
                        if st["toks"][a][q] != z:
                            d = copy.deepcopy(c)
                            d["steps"][s]["toks"][a][q] = z
                            yield d


CHECK = B04()
