#!/usr/bin/env python3
"""Mutation campaign: random small changes to a group of source files, each run through the quick checks of the
properties that should notice.  mutate.py GROUP N SEED WORKDIR  -> WORKDIR/log.txt, survivors as WORKDIR/*.diff"""
import os, random, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "rad-sim/sim/"
BS = S + "noc/booksim/"
DR = S + "dram/DRAMsim3/src/"
X = "rad-sim/example-designs/"
G = {
 "axis": ([S + "noc/axis_slave_adapter.cpp", S + "noc/axis_master_adapter.cpp"], "N01 N02 T01"),
 "aximm": ([S + "noc/aximm_slave_adapter.cpp", S + "noc/aximm_master_adapter.cpp"], "N03 T01 N02"),
 "noc": ([S + "noc/radsim_noc.cpp", S + "noc/noc_utils.cpp", S + "noc/sc_flit.cpp"], "N01 C01 U01 N03 T01"),
 "mem": ([S + "dram/mem_controller.cpp"], "M01 D03"),
 "dram": ([DR + f for f in ("controller.cc", "command_queue.cc", "bankstate.cc", "channel_state.cc", "timing.cc", "refresh.cc", "simple_stats.cc", "hmc.cc", "dram_system.cc", "configuration.cc")], "D02 D01 D04 D03"),
 "inter": ([S + "radsim_inter_rad.cpp", S + "portal.cpp", S + "radsim_cluster.cpp"], "R01 R02"),
 "conf": ([S + "design_context.cpp", S + "radsim_config.cpp", S + "radsim_module.cpp"], "C02 C01 N03"),
 "cfg": (["rad-sim/config.py"], "C03"),
 "wrap": (["rad-sim/scripts/generate_wrapper.py", "rad-sim/scripts/generate_port_mappings.py", "rad-sim/scripts/verilog_parser.py"], "W01"),
 "router": ([BS + "routers/iq_router.cpp", BS + "routers/router.cpp", BS + "vc.cpp", BS + "buffer.cpp", BS + "buffer_state.cpp", BS + "flitchannel.cpp", BS + "credit.cpp", BS + "outputset.cpp"], "B01"),
 "net": ([BS + "networks/" + f for f in ("kncube.cpp", "fly.cpp", "flatfly_onchip.cpp", "cmesh.cpp", "tree4.cpp", "fattree.cpp", "qtree.cpp", "anynet.cpp", "dragonfly.cpp", "network.cpp")], "B02 B01"),
 "rf": ([BS + "routefunc.cpp"], "B02 B01"),
 "alloc": ([BS + "allocators/" + f for f in ("allocator.cpp", "islip.cpp", "loa.cpp", "maxsize.cpp", "pim.cpp", "selalloc.cpp", "separable.cpp", "separable_input_first.cpp", "separable_output_first.cpp", "wavefront.cpp")] + [BS + "arbiters/" + f for f in ("arbiter.cpp", "matrix_arb.cpp", "prio_arb.cpp", "roundrobin_arb.cpp", "tree_arb.cpp")], "B03 B01"),
 "bconf": ([BS + "config_utils.cpp", BS + "booksim_config.cpp"], "B04"),
 "tele": ([S + "radsim_telemetry.cpp", S + "radsim_utils.cpp"], "U02 T01"),
 "e01": ([X + "add/modules/adder.cpp", X + "add/modules/client.cpp", X + "mult/modules/multiplier.cpp", X + "mult/modules/client.cpp"], "E01 E05"),
 "e02": ([X + "mlp/modules/" + f for f in ("mvm.cpp", "datapath.cpp", "fifo.cpp", "instructions.cpp", "register_file.cpp", "dispatcher.cpp", "collector.cpp", "weight_loader.cpp")], "E02"),
 "e03": ([X + "dlrm/modules/" + f for f in ("mvm.cpp", "datapath.cpp", "fifo.cpp", "embedding_lookup.cpp", "custom_feature_interaction.cpp", "feature_interaction.cpp", "collector.cpp", "afifo.cpp")], "E03"),
 "e04": ([X + "mlp_int8/modules/" + f for f in ("sysc_mvm.cpp", "datapath.cpp", "fifo.cpp", "instructions.cpp", "register_file.cpp", "inst_loader.cpp", "collector.cpp", "weight_loader.cpp", "input_dispatcher.cpp", "rtl/rtl_mvm.v", "rtl/accum.v")], "E04"),
 "drv": ([X + d for d in ("add/add_driver.cpp", "mult/mult_driver.cpp", "mlp/mlp_driver.cpp", "add/add_system.cpp", "add/add_top.cpp", "mlp/mlp_top.cpp")] + [S + "design_context.cpp", S + "radsim_cluster.cpp"], "E05 E02"),
}
OPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\+\+", ["--"]), (r"(?<![\w.\"])\d+(?![\w.\"])", ["INC"]), (r"!(?=[\w(])(?!=)", [""]),
       (r" and ", [" or "]), (r" or ", [" and "]), (r"\bnot ", [""]), (r" \+= ", [" = "])]
SKIP = re.compile(r"cout|cerr|printf|assert|#|^\s*//|^\s*\*|<<|Display|template|sc_trace|sim_log|print\(|Error\(|throw|\bdelete\b|static_cast|ostringstream|include|import")
STMT = re.compile(r"^\s*[\w\.\->\[\]\(\)]+(\[[^;]*\])? (=|\+=|-=) [^;]*;\s*$|^\s*[\w\.\->\[\]]+\([^;]*\);\s*$|^\s*(return|break|continue);\s*$")


def cands(path, text):
    out = []
    block = False
    for n, l in enumerate(text):
        inside = block
        if "/*" in l:
            block = inside = True
        if "*/" in l:
            block = False
        if inside and not path.endswith(".py"):
            continue
        if SKIP.search(l) or not l.strip():
            continue
        code = l.split("//")[0] if not path.endswith(".py") else l.split("#")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    if r == "INC":
                        r = str(int(m.group(0)) + 1)
                    out.append((n, l[:m.start()] + r + l[m.end():]))
        if STMT.match(l):
            out.append((n, ";\n" if not path.endswith(".py") else "pass\n"))
            out.append((n, ";\n" if not path.endswith(".py") else "pass\n"))
    return out


def main():
    g, n, seed, wd = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
    files, props = G[g]
    repo = wd + "/repo"
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "_build", "--exclude", ".git", os.environ.get("BASE_REPO", "/repo") + "/", repo + "/"], check=True)
    files = [f for f in files if os.path.exists(repo + "/" + f)]
    env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=wd + "/build", VERIF_JOBS=os.environ.get("VERIF_JOBS", "4"), VERIF_SHRINK="0")
    rng = random.Random(seed + g)
    log = open(wd + "/log.txt", "a")
    pool = []
    for f in files:
        pool += [(f, c) for c in cands(f, open(repo + "/" + f).readlines())]
    # choose files by the square root of their size
    seen = set()
    for k in range(n):
        f, (ln, new) = rng.choice(pool)
        if (f, ln, new) in seen:
            continue
        seen.add((f, ln, new))
        p = repo + "/" + f
        text = open(p).readlines()
        keep = list(text)
        text[ln] = new
        open(p, "w").writelines(text)
        res = []
        for pr in props.split():
            t = time.time()
            try:
                r = subprocess.run(["python3-vt", "check.py", pr], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                rc, o = r.returncode, r.stdout.decode("utf8", "replace")
            except subprocess.TimeoutExpired:
                rc, o = 9, ""
                os.system("pkill -f '%s/build' >/dev/null 2>&1" % wd)
            res.append("%s:%d(%ds)" % (pr, rc, time.time() - t))
            if rc:
                break
        st = "killed" if rc == 1 else "SURVIVED" if rc == 0 else "nobuild" if rc == 2 else "timeout"
        log.write("%s %s:%d %s | %s => %s\n" % (st, f.split("/")[-1], ln + 1, " ".join(res), keep[ln].strip(), new.strip()))
        log.flush()
        open(p, "w").writelines(keep)


main()
