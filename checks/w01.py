"""W01: the RTL wrapper scripts map every port of a Verilog module and the generated wrapper connects them."""
import copy, os, re, shutil, subprocess, sys
import build, core
from core import Check, Outcome, V

# signal -> (driven by the master?, C++ width macro or None for a single bit)
AXIS = {"tvalid": (1, None), "tready": (0, None), "tdata": (1, "AXIS_MAX_DATAW"), "tstrb": (1, "AXIS_STRBW"), "tkeep": (1, "AXIS_KEEPW"),
        "tlast": (1, None), "tid": (1, "AXIS_IDW"), "tdest": (1, "AXIS_DESTW"), "tuser": (1, "AXIS_USERW")}
AXIMM = {}
for ch in ("aw", "ar"):
    AXIMM.update({ch + "valid": (1, None), ch + "ready": (0, None), ch + "id": (1, "AXI4_IDW"), ch + "addr": (1, "AXI4_ADDRW"),
                  ch + "len": (1, "AXI4_LENW"), ch + "size": (1, "AXI4_SIZEW"), ch + "burst": (1, "AXI4_BURSTW"), ch + "user": (1, "AXI4_USERW")})
AXIMM.update({"wvalid": (1, None), "wready": (0, None), "wid": (1, "AXI4_IDW"), "wdata": (1, "AXI4_MAX_DATAW"), "wlast": (1, None),
              "wuser": (1, "AXI4_USERW"), "bvalid": (0, None), "bready": (1, None), "bid": (0, "AXI4_IDW"), "bresp": (0, "AXI4_RESPW"),
              "buser": (0, "AXI4_USERW"), "rvalid": (0, None), "rready": (1, None), "rid": (0, "AXI4_IDW"), "rdata": (0, "AXI4_MAX_DATAW"),
              "rresp": (0, "AXI4_RESPW"), "rlast": (0, None), "ruser": (0, "AXI4_USERW")})
AXW = {"AXIS_MAX_DATAW": 512, "AXIS_STRBW": 8, "AXIS_KEEPW": 8, "AXIS_IDW": 32, "AXIS_DESTW": 12, "AXIS_USERW": 75, "AXI4_IDW": 8,
       "AXI4_ADDRW": 64, "AXI4_LENW": 8, "AXI4_SIZEW": 3, "AXI4_BURSTW": 2, "AXI4_USERW": 64, "AXI4_MAX_DATAW": 512, "AXI4_RESPW": 2}
KW = ("input", "output", "inout", "reg", "logic", "wire", "signed", "tri", "parameter", "module", "endmodule", "wor", "supply0", "integer")
STEMS = ["data", "start", "done", "count", "addr", "valid", "en", "mode", "a", "b", "x1", "cfg", "result", "irq", "sel_2", "q", "ref_clk", "clk_en", "rst_n", "name"]
BAD = ["role_mix", "few_axis", "many_axis", "few_port", "many_port", "width_q", "width_word", "no_module", "mode_word", "module_many"]


def ident(rng, used):
    while True:
        n = rng.choice(STEMS)
        r = rng.random()
        if r < 0.30:
            n = rng.choice(KW) + "_" + n
        elif r < 0.45:
            n = n + "_" + rng.choice(KW)
        elif r < 0.55:
            n = "%s_%s_%s" % (n, rng.choice(KW), rng.choice(STEMS))
        elif r < 0.62:
            n = rng.choice(KW) + n
        elif r < 0.68:
            n = "my_axis_%s_tdata" % n
        elif r < 0.72:
            n = rng.choice(["axis", "aximm"]) + "_" + n.replace("_", "")
        if rng.random() < 0.4:
            n += str(rng.randint(0, 20))
        if n not in used and n not in ("inputs",):
            used.add(n)
            return n


def gen_width(rng):
    """(style, width): the text form of a port's range and what it means"""
    r = rng.random()
    if r < 0.35:
        return ["bit", 1]
    if r < 0.8:
        w = rng.choice([1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 64, 65, 100, 128, 512])
        return ["lit", w, rng.choice([0, 0, 0, 0, 1, 3, 8])]
    if r < 0.88:
        w = rng.choice([2, 3, 8, 16, 33])
        return ["asc", w, rng.choice([0, 0, 1, 4])]
    if r < 0.94:
        w = rng.choice([1, 2, 8, 40])
        return ["spc", w, 0]
    return ["par", rng.choice([2, 8, 16])]


def gen_axi(rng, used, big):
    kind = rng.choice(["axis", "axis", "aximm"])
    table = AXIS if kind == "axis" else AXIMM
    while True:
        n = rng.choice(["rx", "tx", "in", "out", "client", "m", "s0", "port_a", "a_b_c", "tdata", "mem_1"]) + rng.choice(["", "", "2", "_q"])
        if (kind, n) not in used:
            used.add((kind, n))
            break
    sigs = list(table)
    if rng.random() < 0.6:
        sigs = [s for s in sigs if rng.random() < 0.7]
        if not any(table[s][0] for s in sigs):
            sigs.append(rng.choice([s for s in table if table[s][0]]))
    rng.shuffle(sigs)
    return {"kind": kind, "name": n, "role": rng.choice(["slave", "master"]), "sigs": sigs}


def gen_module(rng, i, j, names):
    used = {"clk", "rst"}
    while True:
        mname = rng.choice(["adder", "client", "dut", "fifo", "top_mod", "m_output", "input_ctl", "signed_mul"]) + rng.choice(["", str(i % 7), "_%d" % j])
        if mname not in names:
            names.add(mname)
            break
    used.add(mname)
    ports = []
    if rng.random() < 0.85:
        ports.append({"n": "clk", "d": "input", "t": rng.choice(["", "", "logic", "wire"]), "s": 0, "w": ["bit", 1]})
    if rng.random() < 0.7:
        ports.append({"n": "rst", "d": "input", "t": "", "s": 0, "w": ["bit", 1]})
    for k in range(rng.choice([0, 1, 2, 3, 5, 8])):
        d = rng.choice(["input", "input", "output", "output", "inout"])
        t = rng.choice(["", "", "logic", "reg", "wire"]) if d != "inout" else rng.choice(["", "", "wire"])
        if d == "input" and t == "reg":
            t = "logic"
        ports.append({"n": ident(rng, used), "d": d, "t": t, "s": int(rng.random() < 0.12), "w": gen_width(rng)})
    ax = []
    au = set()
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        a = gen_axi(rng, au, True)
        ax.append(a)
        table = AXIS if a["kind"] == "axis" else AXIMM
        for s in a["sigs"]:
            m, wm = table[s]
            d = "input" if bool(m) == (a["role"] == "slave") else "output"
            ports.append({"n": "%s_%s_%s" % (a["kind"], a["name"], s), "d": d, "t": rng.choice(["", "", "logic", "wire"]), "s": 0,
                          "w": ["bit", 1] if wm is None else ["lit", AXW[wm], 0] if rng.random() < 0.7 else ["par", AXW[wm]],
                          "ax": [a["kind"], a["role"], a["name"], s]})
    if rng.random() < 0.4:
        rng.shuffle(ports)
    return {"name": mname, "ports": ports, "style": rng.choice(["ansi", "ansi", "ansi", "old"]), "pars": rng.randint(0, 3),
            "body": [rng.choice(["assign", "display", "comment", "bcomment", "func", "task", "always", "inst", "local", "wire", "param"])
                     for _ in range(rng.choice([0, 1, 2, 4, 6]))], "fmt": rng.randint(0, 1 << 30), "dataw": rng.choice(["", "512", "64", "128", "1"]),
            "desc": rng.random() < 0.3}


def rng_of(seed):
    import random
    return random.Random(seed)


def render(m, path_bits=False):
    """Verilog source of one module; every random choice comes from m['fmt']"""
    rng = rng_of(m["fmt"])
    o = []
    pars = []

    def wtext(w):
        if w[0] == "bit":
            return ""
        if w[0] == "lit":
            return "[%d:%d]" % (w[1] - 1 + w[2], w[2])
        if w[0] == "asc":
            return "[%d:%d]" % (w[2], w[2] + w[1] - 1)
        if w[0] == "spc":
            return rng.choice(["[ %d : %d ]", "[%d : %d]", "[%d: %d]"]) % (w[1] - 1, 0)
        pn = "PW%d" % w[1]
        if pn not in [p for p, _ in pars]:
            pars.append((pn, w[1]))
        return rng.choice(["[%s-1:0]", "[%s - 1:0]", "[(%s)-1:0]"]) % pn

    def cm(kind="any"):
        r = rng.random()
        if r < 0.75:
            return ""
        txt = rng.choice(["the data", "an input port", "output of the unit, valid when high", "clk (main)", "reg [7:0] x;", "last one"])
        if kind == "any" and r < 0.88:
            return " /* %s */" % txt
        return " // %s\n" % txt

    decls = []
    for p in m["ports"]:
        t = [p["d"]]
        if p["t"]:
            t.append(p["t"])
        if p["s"]:
            t.append("signed")
        w = wtext(p["w"])
        txt = rng.choice([" ", " ", "  ", "\t"]).join(t)
        if w:
            txt += rng.choice([" ", " ", ""]) + w
        decls.append((txt, p["n"], (p["d"], p["t"], p["s"], tuple(p["w"]))))
    for k in range(m["pars"]):
        pars.append(("P%d" % k, rng.randint(1, 64)))
    plines = []
    for n, v in pars:
        form = rng.choice(["parameter %s = %s", "parameter %s = %s", "parameter integer %s = %s", "parameter [15:0] %s = %s"])
        val = str(v) if rng.random() < 0.6 else rng.choice(["$clog2(%d)" % (2 ** min(v, 6)) if n[1].isdigit() else str(v), "(%d+1)-1" % v, "%d" % v, "16'd%d" % v])
        plines.append(form % (n, val))
    if m["desc"]:
        o.append(rng.choice(["// A module with an input and an output\n", "/* module description: input a; */\n", "`timescale 1ns/1ps\n"]))
    head = "module %s" % m["name"]
    old_pars = False
    if plines:
        if m["style"] == "old" and rng.random() < 0.5:
            old_pars = True
        else:
            head += " #(" + rng.choice(["", "\n  "]) + ("," + rng.choice([" ", "\n  "])).join(plines) + rng.choice(["", "\n"]) + ")"
    if m["style"] == "ansi":
        items = []
        prev = None
        for txt, n, key in decls:
            if prev == key and rng.random() < 0.5:
                items.append(n)              # continues the previous declaration
            else:
                items.append(txt + (" " if not txt.endswith("]") or rng.random() < 0.8 else "") + n)
            prev = key
        head += " (" + rng.choice(["\n", "", cm("line") or "\n"])
        nl = rng.choice(["\n", "\n", " "])
        for k, it in enumerate(items):
            head += "  " + it + (rng.choice(["", "", " "]) + "," if k + 1 < len(items) else "") + cm() + nl
        head += ");\n"
        o.append(head)
    else:
        head += " (" + rng.choice([", ", ",\n  "]).join(n for _, n, _ in decls) + ");\n"
        o.append(head)
        if old_pars:
            for p in plines:
                o.append("  " + p + ";\n")
        k = 0
        while k < len(decls):
            txt, n, key = decls[k]
            ns = [n]
            while k + 1 < len(decls) and decls[k + 1][2] == key and rng.random() < 0.5:
                k += 1
                ns.append(decls[k][1])
            o.append("  " + txt + " " + rng.choice([", ", ","]).join(ns) + ";" + cm() + "\n")
            k += 1
    outs = [p for p in m["ports"] if p["d"] == "output" and p["t"] not in ("reg", "logic") and p["w"][0] == "bit"]
    ins = [p for p in m["ports"] if p["d"] == "input"]
    for k, b in enumerate(m["body"]):
        src = rng.choice(ins)["n"] if ins else "1'b0"
        if b == "assign" and outs:
            q = outs[k % len(outs)]
            o.append("  assign %s = %s;\n" % (q["n"], src))
            outs.remove(q)
        elif b == "wire":
            nm = rng.choice(["last_input", "my_output", "t_inout", "w"]) + "_"[: rng.randint(0, 1)] + "%d" % k if rng.random() < .4 else \
                rng.choice(["last_input", "my_output", "t_inout"])
            nm = nm if all(nm != p["n"] for p in m["ports"]) and not any(nm + " " in s for s in o) else "wq%d" % k
            o.append("  wire %s = %s;\n" % (nm, src))
        elif b == "display":
            o.append('  initial begin $display("%s"); end\n' % rng.choice(["bad input value", "no output here", "parameter x = 3", "endmodul e", "input clk, output q"]))
        elif b == "comment":
            o.append("  // %s\n" % rng.choice(["input stage", "the output logic x;", "endmodule follows", "parameter y"]))
        elif b == "bcomment":
            o.append("  /* %s\n   %s */\n" % (rng.choice(["input stage", "output q;"]), rng.choice(["endmodule", "inout z,", "it's"])))
        elif b == "func":
            o.append(rng.choice(["  function [7:0] f%d;\n    input [7:0] fa;\n    f%d = fa + 1;\n  endfunction\n",
                                 "  function automatic [7:0] f%d(input [7:0] fa, input fb);\n    f%d = fa + fb;\n  endfunction\n"]) % (k, k))
        elif b == "task":
            o.append("  task t%d;\n    input ta;\n    output tb;\n    begin tb = ta; end\n  endtask\n" % k)
        elif b == "always":
            o.append("  reg r%d;\n  always @(%s) begin\n    r%d <= 1'b1;\n  end\n" % (k, "posedge clk" if any(p["n"] == "clk" for p in m["ports"]) else "*", k))
        elif b == "inst":
            o.append("  sub_unit u%d (.input_a(%s), .output_b());\n" % (k, src))
        elif b == "local":
            o.append("  localparam L%d = 4;\n" % k)
        elif b == "param":
            o.append("  parameter Q%d = 4;\n" % k)
    o.append("endmodule" + rng.choice(["", " // %s" % m["name"]]) + "\n")
    return "".join(o)


def true_width(w):
    return w[1]


def expect(m):
    """Rows of the port map, with the set of acceptable widths of plain ports"""
    rows = []
    for p in m["ports"]:
        if "ax" in p:
            k, role, n, s = p["ax"]
            rows.append((k, role, p["n"], "%s_%s" % (k, n), s))
            continue
        w = p["w"]
        plain = p["t"] in ("", "reg", "logic") and not p["s"]
        must = {"bit": plain, "lit": p["t"] in ("", "reg", "logic", "wire") and not p["s"], "asc": False, "spc": False, "par": False}[w[0]]
        ok = {str(w[1])} if must else {str(w[1]), "?"}
        if w[0] == "par":
            ok = {"?"}
        rows.append((p["d"], ok, p["n"], p["n"]))
    return rows


HDR_STUB = """#pragma once
#include <systemc.h>
#include <axis_interface.hpp>
#include <aximm_interface.hpp>
struct V%(n)s : public sc_module {
%(members)s  static V%(n)s *last;
  V%(n)s(sc_module_name nm) : sc_module(nm) { last = this; }
  void final() {}
};
"""


def ctype(d, w):
    return "%s<%s>" % ({"input": "sc_in", "output": "sc_out", "inout": "sc_inout"}[d], "bool" if w == 1 else "sc_bv<%d>" % w)


class W01(Check):
    prop = "W01"
    targets = ["libradsim_a.a"]
    technique = "property-based testing: generated Verilog modules and port maps through the scripts; the generated wrapper is compiled and its bindings are read back at run time"
    rule = "a module with at least one AXI interface and one plain port was mapped, or a malformed port map was refused"
    quick_n = 260
    thorough_n = 6000
    cpu_limit = 120
    assumptions = ("no preprocessor directives, attributes, default values or further dimensions in port lists; an interface has at least one signal driven by "
                   "its master; AXI widths are those of the RAD; modules have at least one AXI interface")

    def gen(self, rng, i, tier):
        r = rng.random()
        if r < 0.12:
            names = set()
            m = gen_module(rng, i, 0, names)
            return {"k": "bad", "m": m, "bad": rng.choice(BAD), "at": rng.random(), "x": rng.randint(0, 9)}
        names = set()
        files = []
        for f in range(rng.choice([1, 1, 1, 2, 3])):
            files.append([gen_module(rng, i, f * 3 + j, names) for j in range(rng.choice([1, 1, 2, 3]))])
        c = {"k": "map", "files": files, "ext": rng.choice([".v", ".sv"]), "wrap": 0}
        p = 0.10 if tier == "quick" else 0.2
        if rng.random() < p:
            c["wrap"] = 1
            c["rename"] = rng.randint(0, 1)
            c["inst"] = rng.choice(["m", "unit", "a_rather_long_instance_name_of_a_module_in_a_design", "x" * 24, "y" * 25])
            c["files"] = [[m for m in f][:1] for f in files][:2]
        return c

    # ------------------------------------------------------------------
    def run_script(self, d, name, args, inp, o):
        r = subprocess.run([sys.executable, d + "/scripts/" + name] + args, cwd=d, input=inp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=60, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        return r

    def setup_dir(self, wd):
        d = os.path.join(wd, "w")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/design/modules/rtl")
        shutil.copytree(build.SRC + "/scripts", d + "/scripts", ignore=shutil.ignore_patterns("__pycache__"))
        return d

    def execute(self, case, wd):
        o = Outcome()
        d = self.setup_dir(wd)
        if case["k"] == "bad":
            return self.run_bad(case, d, o)
        files = []
        rtl = d + "/design/modules/rtl/"
        mods = []
        for i, f in enumerate(case["files"]):
            if not f:
                continue
            fn = "file%d%s" % (i, case["ext"])
            files.append(fn)
            with open(rtl + fn, "w") as fh:
                fh.write("\n".join(render(m) for m in f))
            mods += f
        if not files or not mods:
            return o
        r = self.run_script(d, "generate_port_mappings.py", ["design"] + files, "", o)
        if r.returncode:
            o.violations.append(V("map-failed", "generate_port_mappings.py failed on legal files: %s" % r.stdout[-300:], "map-failed"))
            return o
        got = []
        for ln in open(rtl + "port.map"):
            c = ln.split()
            if not c:
                continue
            if c[0] == "module":
                got.append((c[1] if len(c) == 2 else ln, []))
            elif not got:
                o.violations.append(V("map-orphan", "port line before any module: " + ln, "orphan"))
                return o
            else:
                got[-1][1].append(tuple(c))
        if [g[0] for g in got] != [m["name"] for m in mods]:
            o.violations.append(V("map-modules", "port map lists modules %s, files have %s" % ([g[0] for g in got], [m["name"] for m in mods]), "modules"))
            return o
        q = False
        widths = {}
        for (gn, rows), m in zip(got, mods):
            ex = expect(m)
            o.evals += len(ex)
            byname = {}
            for x in rows:
                byname.setdefault(x[2] if len(x) > 2 else str(x), []).append(x)
            for e in ex:
                g = byname.pop(e[2], [])
                if len(g) != 1:
                    o.violations.append(V("map-missing" if not g else "map-twice", "module %s port %s has %d lines" % (gn, e[2], len(g)),
                                          "missing" if not g else "twice"))
                    continue
                g = g[0]
                if len(e) == 5:
                    if g != e:
                        o.violations.append(V("map-axi", "module %s: %s mapped as %s, is %s" % (gn, e[2], g, e), "axi"))
                else:
                    if len(g) != 4 or g[0] != e[0] or g[3] != e[3]:
                        o.violations.append(V("map-port", "module %s: %s mapped as %s, is %s" % (gn, e[2], g, e), "port"))
                    elif g[1] not in e[1]:
                        o.violations.append(V("map-width", "module %s: %s has width %s, expected %s" % (gn, e[2], g[1], sorted(e[1])), "width"))
                    if len(g) > 1 and g[1] == "?":
                        q = True
            for n in byname:
                o.violations.append(V("map-phantom", "module %s has no port %s (%s)" % (gn, n, byname[n]), "phantom"))
            order = [x[2] for x in rows if len(x) > 2]
            if not o.violations and order != [e[2] for e in ex]:
                o.violations.append(V("map-order", "module %s: order %s" % (gn, order), "order"))
            if any(len(e) == 5 for e in ex) and any(len(e) == 4 for e in ex):
                o.nontrivial = True
        if not o.violations:
            if q and "?" not in r.stdout and "WARNING" not in r.stdout:
                o.violations.append(V("map-silent", "a width is left open without a warning", "silent"))
        o.sigs = [(m["style"], tuple(sorted({p["w"][0] for p in m["ports"]})), len(m["ports"]), tuple(sorted(set(m["body"])))) for m in mods]
        o.sig = tuple(map(str, o.sigs))
        o.tags = ["map"]
        if o.violations or not case["wrap"]:
            if not o.violations and q:
                # an open width must not reach a wrapper
                r = self.run_script(d, "generate_wrapper.py", ["design"] + [m["name"] for m in mods], "512\n" * len(mods), o)
                if r.returncode == 0:
                    o.violations.append(V("wrap-open", "generate_wrapper.py accepted a port map with an open width", "open"))
            return o
        return self.run_wrap(case, d, mods, o)

    # ------------------------------------------------------------------
    def write_map(self, path, mods, rename):
        with open(path, "w") as f:
            for m in mods:
                f.write("module %s\n" % m["name"])
                for p in m["ports"]:
                    if "ax" in p:
                        k, role, n, s = p["ax"]
                        f.write("%s %s %s %s_%s %s\n" % (k, role, p["n"], k, n, s))
                    else:
                        rn = "rs_" + p["n"] if rename and p["n"] != "clk" else p["n"]
                        f.write("%s %d %s %s\n" % (p["d"], p["w"][1], p["n"], rn))
                f.write("\n")

    def run_wrap(self, case, d, mods, o):
        mods = [m for m in mods if any("ax" in p for p in m["ports"])]
        if not mods:
            return o
        # the user's part of the flow: open widths are filled in (and RAD-Sim names changed)
        self.write_map(d + "/design/modules/rtl/port.map", mods, case["rename"])
        r = self.run_script(d, "generate_wrapper.py", ["design"] + [m["name"] for m in mods], "".join(m["dataw"] + "\n" for m in mods), o)
        if r.returncode:
            o.violations.append(V("wrap-failed", "generate_wrapper.py failed on a valid port map: %s" % r.stdout[-300:], "wrap-failed"))
            return o
        mp = d + "/design/modules/"
        os.makedirs(d + "/inc", exist_ok=True)
        main = ["#include <systemc.h>", "#include <design_context.hpp>", "#include <radsim_config.hpp>", "#include <cstdio>", "#include <cstdlib>", "#include <unistd.h>"]
        for m in mods:
            mem = ""
            for p in m["ports"]:
                if "ax" in p:
                    k, role, n, s = p["ax"]
                    wm = (AXIS if k == "axis" else AXIMM)[s][1]
                    mem += "  %s<%s> %s;\n" % ("sc_in" if p["d"] == "input" else "sc_out", "bool" if wm is None else "sc_bv<%s>" % wm, p["n"])
                else:
                    mem += "  %s %s;\n" % (ctype(p["d"], p["w"][1]), p["n"])
            with open(d + "/inc/V%s.h" % m["name"], "w") as f:
                f.write(HDR_STUB % {"n": m["name"], "members": mem})
            main.append('#include "%s%s.cpp"' % (mp, m["name"]))
        main += ["RADSimConfig radsim_config; std::ostream *gWatchOut; SimLog sim_log; SimTraceRecording sim_trace_probe;",
                 "static std::string reg_name; static RADSimModule *reg_mod;",
                 "void RADSimDesignContext::RegisterModule(std::string n, RADSimModule *p) { reg_name = n; reg_mod = p; }"]
        body = []
        for i, m in enumerate(mods):
            main.append("V%s *V%s::last;" % (m["name"], m["name"]))
            inst = case["inst"] + str(i)
            body.append("{ auto *w = new %s(\"%s\", ctx); auto *v = V%s::last; RADSimModule *b = w; std::string nm(\"%s\");" % (m["name"], inst, m["name"], inst))
            body.append('CHK(reg_mod == b && reg_name == nm, "registration of %s");' % m["name"])
            body.append('CHK(v != nullptr, "model of %s"); auto *dummy = new sc_signal<bool>; b->clk(*dummy);' % m["name"])
            axi = []
            for p in m["ports"]:
                if "ax" in p:
                    k, role, n, s = p["ax"]
                    if (k, role, n) not in axi:
                        axi.append((k, role, n))
                        t = AXIS if k == "axis" else AXIMM
                        for sg, (mm, wm) in t.items():
                            ty = "bool" if wm is None else "sc_bv<%s>" % wm
                            body.append("auto *s_%s_%s_%s = new sc_signal<%s>; w->%s_%s.%s(*s_%s_%s_%s);" % (k, n, sg, ty, k, n, sg, k, n, sg))
                elif p["n"] != "clk":
                    rn = "rs_" + p["n"] if case["rename"] else p["n"]
                    w = p["w"][1]
                    body.append("auto *s_%s = new sc_signal<%s, SC_MANY_WRITERS>; { %s *q = &w->%s; (*q)(*s_%s); }" % (
                        p["n"], "bool" if w == 1 else "sc_bv<%d>" % w, ctype(p["d"], w), rn, p["n"]))
            chk = []
            for p in m["ports"]:
                if "ax" in p:
                    k, role, n, s = p["ax"]
                    sig = "s_%s_%s_%s" % (k, n, s)
                elif p["n"] == "clk":
                    sig = "dummy"
                else:
                    sig = "s_" + p["n"]
                chk.append('CHK((void*)dynamic_cast<sc_interface*>(v->%s.get_interface()) == (void*)dynamic_cast<sc_interface*>(%s), "%s of %s connected");' % (p["n"], sig, p["n"], m["name"]))
            cnt = {(k, r): 0 for k in ("axis", "aximm") for r in ("slave", "master")}
            dw = m["dataw"] or "1024"
            body.append("b->RegisterModuleInfo();" if False else "")
            for k, role, n in axi:
                cnt[(k, role)] += 1
                body.append('{ std::string pn = nm + ".%s_%s"; CHK(b->_%s_%s_ports.count(pn) && b->_%s_%s_ports[pn] == &w->%s_%s, "registration of port %s_%s of %s"); '
                            'CHK(b->_ports_dataw[pn] == %s, "data width of port %s_%s of %s"); CHK(b->_ports_is_aximm[pn] == %d, "kind of %s_%s"); }' % (
                                k, n, k, role, k, role, k, n, k, n, m["name"], dw, k, n, m["name"], k == "aximm", k, n))
            for (k, role), c in cnt.items():
                body.append('CHK(b->_num_noc_%s_%s_ports == %d && b->_%s_%s_ports.size() == %d, "number of %s %s ports of %s");' % (k, role, c, k, role, c, k, role, m["name"]))
            body.append("checks.push_back([=]() { %s }); }" % " ".join(chk))
            o.evals += len(m["ports"])
        main += ["#include <functional>", "static int bad, n; static void CHK(bool ok, const char *what) { n++; if (!ok) { bad++; printf(\"BAD %s\\n\", what); } }",
                 "int sc_main(int, char **) {", "RADSimDesignContext *ctx = (RADSimDesignContext *)calloc(1, sizeof(RADSimDesignContext));",
                 "std::vector<std::function<void()>> checks;"] + body + [
                     "sc_start(SC_ZERO_TIME); for (auto &f : checks) f();", 'printf("DONE %d\\n", n); fflush(stdout); _exit(0); }']
        with open(d + "/main.cpp", "w") as f:
            f.write("\n".join(main) + "\n")
        inc = ["-I" + build.BUILD + "/var_a/include", "-I" + d + "/inc", "-I" + mp]
        binc = [x if not x.startswith("-I") else "-I" + os.path.join(build.BUILD, x[2:]) for x in (build.BSINC + " " + build.DSINC).split()]
        r = subprocess.run(["g++", "-std=gnu++17", "-w", "-O0", "-fsanitize=address", "-DFMT_HEADER_ONLY=1"] + inc + binc + [d + "/main.cpp", self.bin["libradsim_a.a"], "-lsystemc", "-lpthread",
                            "-Wl,--allow-multiple-definition", "-o", d + "/prog"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
        if r.returncode:
            o.violations.append(V("wrap-compile", "the generated wrapper does not compile: %s" % first_error(r.stdout), "compile"))
            return o
        r = subprocess.run([d + "/prog"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d, timeout=60,
                           env=dict(os.environ, SYSTEMC_DISABLE_COPYRIGHT_MESSAGE="1", ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0"))
        bad = re.findall(r"^BAD (.*)$", r.stdout, re.M)
        for b in bad[:5]:
            o.violations.append(V("wrap-binding", "generated wrapper: %s is wrong" % b, "binding"))
        if not bad and "DONE" not in r.stdout:
            o.violations.append(V("wrap-crash", "the generated wrapper fails at elaboration (exit %d): %s" % (r.returncode, tail_err(r.stdout)), "crash"))
        o.tags.append("wrap")
        return o

    # ------------------------------------------------------------------
    def run_bad(self, case, d, o):
        m = case["m"]
        rows = [["module", m["name"]]]
        for p in m["ports"]:
            if "ax" in p:
                k, role, n, s = p["ax"]
                rows.append([k, role, p["n"], k + "_" + n, s])
            else:
                rows.append([p["d"], str(p["w"][1]), p["n"], p["n"]])
        ai = [i for i, x in enumerate(rows) if x[0] in ("axis", "aximm")]
        pi = [i for i, x in enumerate(rows) if x[0] in ("input", "output", "inout")]
        b = case["bad"]
        at = case["at"]

        def pick(l):
            return l[int(at * len(l)) % len(l)]
        if b == "role_mix":
            cand = [i for i in ai if sum(rows[j][0] == rows[i][0] and rows[j][3] == rows[i][3] for j in ai) > 1]
            if not cand:
                return o
            i = pick(cand)
            rows[i][1] = "slave" if rows[i][1] == "master" else "master"
        elif b in ("few_axis", "many_axis"):
            if not ai:
                return o
            i = pick(ai)
            if b == "few_axis":
                del rows[i][4]
            else:
                rows[i].append("extra")
        elif b == "no_module":
            del rows[0]
            if not rows:
                return o
        elif b == "module_many":
            rows[0].append("x")
        else:
            if not pi:
                return o
            i = pick(pi)
            if b == "few_port":
                del rows[i][3]
            elif b == "many_port":
                rows[i].append("extra")
            elif b == "width_q":
                rows[i][1] = "?"
            elif b == "width_word":
                rows[i][1] = ["W", "-3", "8.5", "0x10", "eight"][case["x"] % 5]
            elif b == "mode_word":
                rows[i][0] = ["in", "out", "wire", "axi", "INPUT"][case["x"] % 5]
        with open(d + "/design/modules/rtl/port.map", "w") as f:
            f.write("\n".join(" ".join(x) for x in rows) + "\n")
        r = self.run_script(d, "generate_wrapper.py", ["design", m["name"]], "512\n", o)
        o.evals += 1
        o.sig = ("bad", b)
        o.tags = ["bad"]
        o.nontrivial = True
        if r.returncode == 0:
            o.violations.append(V("wrap-bad", "a malformed port map (%s) was accepted: %s" % (b, rows[:3]), "bad-" + b))
        return o

    # ------------------------------------------------------------------
    def shrink(self, case):
        if case["k"] == "bad":
            c = case
            for i in range(len(c["m"]["ports"])):
                n = copy.deepcopy(c)
                del n["m"]["ports"][i]
                yield n
            return
        for i in range(len(case["files"])):
            if len(case["files"]) > 1:
                n = copy.deepcopy(case)
                del n["files"][i]
                yield n
            for j in range(len(case["files"][i])):
                if len(case["files"][i]) > 1:
                    n = copy.deepcopy(case)
                    del n["files"][i][j]
                    yield n
                m = case["files"][i][j]
                for key, val in (("pars", 0), ("style", "ansi"), ("desc", False), ("body", [])):
                    if m[key] != val:
                        n = copy.deepcopy(case)
                        n["files"][i][j][key] = val
                        yield n
                for k in range(len(m["body"])):
                    n = copy.deepcopy(case)
                    del n["files"][i][j]["body"][k]
                    yield n
                half = len(m["ports"]) // 2
                if half > 1:
                    for s in (slice(0, half), slice(half, None)):
                        n = copy.deepcopy(case)
                        del n["files"][i][j]["ports"][s]
                        yield n
                for k in range(len(m["ports"])):
                    if len(m["ports"]) > 1:
                        n = copy.deepcopy(case)
                        del n["files"][i][j]["ports"][k]
                        yield n


def first_error(t):
    m = re.search(r"[^\n]*error[^\n]*", t)
    return (m.group(0) if m else t[:300])[:300]


def tail_err(t):
    m = re.search(r"[^\n]*(ERROR|Error|error)[^\n]*", t)
    return (m.group(0) if m else t[-200:])[:300]


CHECK = W01()
