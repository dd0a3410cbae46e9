"""Builds the harness binaries from /repo's current working tree.

The tree is copied by content into /verif/build/src (unchanged files keep their
times), the interface widths of each variant are produced by the repository's
own config.py, and ninja compiles what changed.
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(BUILD, "src")          # copy of rad-sim
HARN = os.path.join(VERIF, "harness")
SIM = SRC + "/sim"
BS = SIM + "/noc/booksim"
DS = SIM + "/dram/DRAMsim3"

# Interface widths of each build: name -> config.py settings
VARIANTS = {
    # several flits per transfer, 4-bit node fields
    "a": dict(payload=82, vcs=10, types=5, dim=4, axis=512, user=75, axi=512, axiuser=64, rads=1),
    # odd widths, many flits per transfer, 5-bit node fields
    "b": dict(payload=47, vcs=5, types=5, dim=5, axis=200, user=21, axi=256, axiuser=64, rads=1),
    # one flit per transfer, 2-bit node fields
    "c": dict(payload=600, vcs=5, types=5, dim=2, axis=512, user=75, axi=512, axiuser=64, rads=1),
    # several devices
    "m": dict(payload=82, vcs=5, types=5, dim=4, axis=512, user=75, axi=512, axiuser=64, rads=3),
    # up to 100 nodes, 7-bit node fields (DLRM example)
    "d": dict(payload=82, vcs=5, types=5, dim=10, axis=512, user=75, axi=512, axiuser=64, rads=1),
    # the same on two devices (two-device DLRM example)
    "e": dict(payload=82, vcs=5, types=5, dim=10, axis=512, user=75, axi=512, axiuser=64, rads=2),
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class BuildError(Exception):
    pass


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)


def variant_yaml(v):
    cfgs = "".join("config c%d:\n  design:\n    name: 'vdesign'\n    noc_placement: ['x.place']\n    clk_periods: [1.0]\n\n" % i
                   for i in range(v["rads"]))
    return cfgs + """noc:
  type: ['2d']
  num_nocs: 1
  clk_period: [1.0]
  payload_width: [{payload}]
  topology: ['mesh']
  dim_x: [{dim}]
  dim_y: [{dim}]
  routing_func: ['dim_order']
  vcs: [{vcs}]
  vc_buffer_size: [8]
  output_buffer_size: [8]
  num_packet_types: [{types}]

interfaces:
  max_axis_tdata_width: {axis}
  axis_tuser_width: {user}
  axi_user_width: {axiuser}
  max_axi_data_width: {axi}

noc_adapters:
  clk_period: [1.25]

cluster:
  num_rads: {rads}
  cluster_configs: [{names}]
""".format(names=", ".join("'c%d'" % i for i in range(v["rads"])), **v)


def run_config_py(workdir, yaml_text, design="vdesign", repo_radsim=None, timeout=60):
    """Run the repository's config.py in a scratch rad-sim directory."""
    root = repo_radsim or SRC
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir + "/rad-sim/example-designs/" + design)
    os.makedirs(workdir + "/rad-sim/sim/noc")
    os.makedirs(workdir + "/bin")
    with open(workdir + "/bin/cmake", "w") as f:
        f.write("#!/bin/sh\nexit 0\n")
    os.chmod(workdir + "/bin/cmake", 0o755)
    with open(workdir + "/rad-sim/example-designs/%s/config.yml" % design, "w") as f:
        f.write(yaml_text)
    shutil.copy(root + "/config.py", workdir + "/rad-sim/config.py")
    env = dict(os.environ, PATH=workdir + "/bin:" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "config.py", design], cwd=workdir + "/rad-sim", env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r


def make_header(name):
    """Variant header from the current config.py; falls back to the committed
    copy if config.py fails (C03 reports that failure)."""
    v = VARIANTS[name]
    y = variant_yaml(v)
    with open(SRC + "/config.py") as f:
        key = hashlib.sha256((f.read() + y).encode()).hexdigest()
    stamp = BUILD + "/var_%s/include/radsim_defines.hpp.key" % name
    out = BUILD + "/var_%s/include/radsim_defines.hpp" % name
    mout = BUILD + "/var_%s/main.cpp" % name
    # main.cpp is compiled with a root directory taken from the environment
    write_if_changed(BUILD + "/var_%s/include_main/radsim_defines.hpp" % name,
                     '#pragma once\n#include "../include/radsim_defines.hpp"\n#include <cstdlib>\n#include <string>\n'
                     '#undef RADSIM_ROOT_DIR\n#define RADSIM_ROOT_DIR std::string(getenv("VROOT"))\n')
    if os.path.exists(stamp) and os.path.exists(out) and os.path.exists(mout) and open(stamp).read() == key:
        return
    wd = BUILD + "/cfg_" + name
    text = main = None
    try:
        run_config_py(wd, y)
        if os.path.exists(wd + "/rad-sim/sim/main.cpp"):
            main = open(wd + "/rad-sim/sim/main.cpp").read()
        text = open(wd + "/rad-sim/sim/radsim_defines.hpp").read()
        text = text.replace(wd + "/rad-sim", "/nonexistent")
        if "AXI4_PAYLOADW" not in text or "AXIS_PAYLOADW" not in text:
            text = None
    except (OSError, subprocess.SubprocessError):
        text = None
    shutil.rmtree(wd, ignore_errors=True)
    if main is None or "sc_main" not in main:
        main = open(VERIF + "/lib/headers/%s_main.cpp" % ("m" if name == "m" else "a")).read()
    elif os.environ.get("VERIF_STORE_HEADERS") and name in "am":
        write_if_changed(VERIF + "/lib/headers/%s_main.cpp" % name, main)
    write_if_changed(mout, main)
    fb = VERIF + "/lib/headers/%s.hpp" % name
    if text is None:
        log("config.py gave no header for variant %s; using the stored one" % name)
        text = open(fb).read()
    elif os.environ.get("VERIF_STORE_HEADERS"):
        write_if_changed(fb, text)
    write_if_changed(out, text)
    write_if_changed(stamp, key)


def rel(p):
    return os.path.relpath(p, BUILD)


class Ninja:
    def __init__(self):
        self.lines = [
            "rule cxx\n command = $cc $flags -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n",
            "rule ar\n command = rm -f $out && ar rcsT $out $in\n",
            "rule link\n command = $cc $lflags $in -o $out $libs\n",
        ]
        self.seen = set()

    def obj(self, src, outdir, flags, cc="g++"):
        o = "%s/%s.o" % (outdir, rel(src).replace("../", "up_").replace("/", "__"))
        if o not in self.seen:
            self.seen.add(o)
            self.lines.append("build %s: cxx %s\n cc = %s\n flags = %s\n" % (o, rel(src), cc, flags))
        return o

    def link(self, out, objs, libs, lflags="", cc="g++"):
        self.lines.append("build %s: link %s\n cc = %s\n lflags = %s\n libs = %s\n" % (out, " ".join(objs), cc, lflags, libs))


def booksim_srcs():
    s = []
    for d in ("", "allocators/", "arbiters/", "networks/", "power/", "routers/"):
        s += sorted(glob.glob(BS + "/" + d + "*.cpp"))
    return s, [BS + "/y.tab.c", BS + "/lex.yy.c"]


def dramsim_srcs():
    skip = {"main.cc", "cpu.cc", "thermal.cc", "thermal_replay.cc"}
    return [f for f in sorted(glob.glob(DS + "/src/*.cc")) if os.path.basename(f) not in skip]


BASE = "-std=gnu++17 -w -O1 -U_FORTIFY_SOURCE -D_GLIBCXX_ASSERTIONS"
BSINC = " ".join("-I" + rel(p) for p in [SIM, SIM + "/noc", BS] + [BS + "/" + d for d in
                 ("routers", "allocators", "arbiters", "networks", "power")])
DSINC = " ".join("-I" + rel(p) for p in [SIM + "/dram", DS, DS + "/src", DS + "/ext/headers", DS + "/ext/fmt/include",
                                          DS + "/ext/fmt/include/fmt"])


VLINC = "/usr/share/verilator/include"


def verilate():
    """SystemC models of the Verilog engines of mlp_int8, as its CMakeLists.txt makes them"""
    rd = SRC + "/example-designs/mlp_int8/modules/rtl"
    files = sorted(glob.glob(rd + "/*.v"))
    key = hashlib.sha256()
    for f in files:
        key.update(os.path.basename(f).encode() + b"\0" + open(f, "rb").read())
    out, stamp = BUILD + "/vl_mlp8", BUILD + "/vl_mlp8.key"
    if os.path.isdir(out) and os.path.exists(stamp) and open(stamp).read() == key.hexdigest():
        return
    shutil.rmtree(out, ignore_errors=True)
    cmd = ["verilator", "--sc", "--pins-bv", "2", "-Wno-fatal", "-Wall", "--prefix", "Vrtl_mvm", "--top-module", "rtl_mvm", "--Mdir", out]
    for f in files:
        cmd += [f] if f.endswith("/rtl_mvm.v") else ["-v", f]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        log(r.stdout[-3000:])
        raise BuildError("verilator failed")
    write_if_changed(stamp, key.hexdigest())


NPU = {"TILES": 3, "SECTORS": 4, "DPES_PER_SECTOR": 5, "LANES": 20, "THREADS": 2, "MRFIDW": 6, "VRF_WB_SELW": 3}


def stage_npu():
    """The NPU example with its parameter header scaled down, the way its compiler rewrites it"""
    src, dst = SRC + "/example-designs/npu", BUILD + "/npu"
    want = set()
    for f in sorted(glob.glob(src + "/*.[ch]pp") + glob.glob(src + "/modules/*.[ch]pp")):
        t = open(f).read()
        if f.endswith("/params.hpp"):
            for k, v in NPU.items():
                t = re.sub(r"(#define %s )\d+" % k, r"\g<1>%d" % v, t)
        out = dst + f[len(src):]
        os.makedirs(os.path.dirname(out), exist_ok=True)
        write_if_changed(out, t)
        want.add(out)
    for f in glob.glob(dst + "/*.[ch]pp") + glob.glob(dst + "/modules/*.[ch]pp"):
        if f not in want:
            os.remove(f)


def gen_ninja():
    n = Ninja()
    dsf = BASE + " -DFMT_HEADER_ONLY=1 " + DSINC
    dso = [n.obj(s, "o_ds", dsf) for s in dramsim_srcs()]
    for v in VARIANTS:
        inc = "-Ivar_%s/include %s %s" % (v, BSINC, DSINC)
        fl = BASE + " " + inc
        od = "o_" + v
        cpp, c = booksim_srcs()
        bo = [n.obj(s, od, fl) for s in cpp] + [n.obj(s, od, "-w -O1 " + inc, "gcc") for s in c]
        rs = [s for s in sorted(glob.glob(SIM + "/*.cpp")) if os.path.basename(s) != "main.cpp"]
        rs += sorted(glob.glob(SIM + "/noc/*.cpp")) + sorted(glob.glob(SIM + "/dram/*.cpp"))
        ro = [n.obj(s, od, fl + " -DFMT_HEADER_ONLY=1") for s in rs]
        if v == "a":
            n.lines.append("build libradsim_a.a: ar %s\n" % " ".join(ro + bo + dso))
        if v in "de":
            two = "two" if v == "e" else ""
            xd = SRC + "/example-designs/dlrm" + ("_two_rad" if two else "")
            xs = sorted(glob.glob(xd + "/modules/*.cpp")) + [xd + "/dlrm_%s.cpp" % x for x in ("top", "driver", "two_rad_system" if two else "system")]
            for lanes in ((32,) if two else (32, 16)):
                # the definitions compiler/dlrm.py writes for "-l lanes"
                try:
                    h = open(xd + "/modules/dlrm_defines.hpp").read()
                except OSError:
                    h = ""
                for k, x in (("LANES", lanes), ("COMPUTE_LATENCY", {32: 10, 16: 9}[lanes]), ("RF_MEM_DEPTH", {32: 512, 16: 1024}[lanes])):
                    h = re.sub(r"#define +%s +\d+" % k, "#define %s %d" % (k, x), h)
                write_if_changed(BUILD + "/var_%s%d/dlrm_defines.hpp" % (v, lanes), h)
                xf = fl + " -Ivar_%s%d -I%s -I%s" % (v, lanes, rel(xd), rel(xd + "/modules")) + (" -DTWO_RADS" if two else "")
                xo = [n.obj(s, "o_ex_dlrm%s%d" % (two, lanes), xf) for s in xs + [HARN + "/exdlrm.cpp"]]
                n.link("exdlrm%s%d" % (two, lanes), xo + ro + bo + dso, "-lsystemc -lpthread")
            continue
        h = n.obj(HARN + "/simh.cpp", od, fl)
        n.link("simh_" + v, [h] + ro + bo + dso, "-lsystemc -lpthread")
        if v == "a" or v == "b":
            if os.path.exists(HARN + "/unith.cpp"):
                u = n.obj(HARN + "/unith.cpp", od, fl)
                n.link("unith_" + v, [u] + ro + bo + dso, "-lsystemc -lpthread")
            if v == "a" and os.path.exists(HARN + "/unitl.cpp"):
                n.link("unitl", [n.obj(HARN + "/unitl.cpp", od, fl)] + ro + bo + dso, "-lsystemc -lpthread")
        mfl = "%s -DFMT_HEADER_ONLY=1 -Ivar_%s/include_main " % (BASE, v) + inc + " -Dsc_main=generated_sc_main"
        if v == "m" and os.path.exists(HARN + "/runcluster.hpp"):
            write_if_changed(BUILD + "/var_run/cluster/vdesign_system.hpp", '#pragma once\n#include "%s/runcluster.hpp"\n' % HARN)
            mo = n.obj(BUILD + "/var_m/main.cpp", "o_run_cluster", mfl + " -Ivar_run/cluster")
            n.link("run_cluster", [mo, n.obj(HARN + "/runaux.cpp", od, fl)] + ro + bo + dso, "-lsystemc -lpthread")
        if v == "a" and os.path.exists(HARN + "/runaux.cpp"):
            ax = n.obj(HARN + "/runaux.cpp", od, fl)
            for ex, one, op in (("add", "0", "+"), ("mult", "1", "*"), ("mlp", "", "")):
                xd = SRC + "/example-designs/" + ex
                write_if_changed(BUILD + "/var_run/%s/vdesign_system.hpp" % ex, '#pragma once\n#include <%s_system.hpp>\ntypedef %s_system vdesign_system;\n' % (ex, ex))
                write_if_changed(BUILD + "/var_run/stub_%s/%s_top.hpp" % (ex, ex), '#pragma once\n#define STUB_TOP %s_top\n#define IDENTITY %s\n#define COMBINE(a, b) ((a) %s (b))\n#include "%s/runstub.hpp"\n' % (ex, one, op, HARN))
                xi = " -I%s -I%s -Ivar_run/%s" % (rel(xd), rel(xd + "/modules"), ex)
                mods = sorted(glob.glob(xd + "/modules/*.cpp"))
                xs = mods + [xd + "/%s_%s.cpp" % (ex, x) for x in ("top", "driver", "system")]
                xo = [n.obj(s, "o_run_" + ex, fl + xi) for s in xs] + [n.obj(BUILD + "/var_a/main.cpp", "o_run_" + ex, mfl + xi)]
                n.link("run_" + ex, xo + [ax] + ro + bo + dso, "-lsystemc -lpthread")
                if ex != "mlp":
                    xi = " -Ivar_run/stub_" + ex + xi
                    xs = mods + [xd + "/%s_%s.cpp" % (ex, x) for x in ("driver", "system")]
                    xo = [n.obj(s, "o_runstub_" + ex, fl + xi) for s in xs] + [n.obj(BUILD + "/var_a/main.cpp", "o_runstub_" + ex, mfl + xi)]
                    n.link("runstub_" + ex, xo + [ax] + ro + bo + dso, "-lsystemc -lpthread")
        if v == "a":
            for ex in ("add", "mult"):
                if os.path.exists(HARN + "/exh.cpp"):
                    xd = SRC + "/example-designs/" + ex
                    xf = fl + " -I%s -I%s -DEX_%s" % (rel(xd), rel(xd + "/modules"), ex.upper())
                    xs = sorted(glob.glob(xd + "/modules/*.cpp")) + [xd + "/%s_top.cpp" % ex]
                    xo = [n.obj(s, "o_ex_" + ex, xf) for s in xs + [HARN + "/exh.cpp"]]
                    n.link("exh_" + ex, xo + ro + bo + dso, "-lsystemc -lpthread")
            if os.path.exists(HARN + "/exmlp.cpp"):
                xd = SRC + "/example-designs/mlp"
                xf = fl + " -I%s -I%s" % (rel(xd), rel(xd + "/modules"))
                xs = sorted(glob.glob(xd + "/modules/*.cpp")) + [xd + "/mlp_top.cpp"]
                xo = [n.obj(s, "o_ex_mlp", xf) for s in xs + [HARN + "/exmlp.cpp"]]
                n.link("exmlp", xo + ro + bo + dso, "-lsystemc -lpthread")
            if os.path.exists(HARN + "/exmlp8.cpp"):
                xd = SRC + "/example-designs/mlp_int8"
                vd = BUILD + "/vl_mlp8"
                xf = fl + " -DVM_SC=1 -faligned-new -I%s -I%s -Ivl_mlp8 -isystem %s" % (rel(xd), rel(xd + "/modules"), VLINC)
                xs = sorted(glob.glob(xd + "/modules/*.cpp")) + [xd + "/%s.cpp" % x for x in ("mlp_top", "mlp_driver", "mlp_int8_system")]
                xs += sorted(glob.glob(vd + "/*.cpp")) + [VLINC + "/verilated.cpp", VLINC + "/verilated_threads.cpp"]
                xo = [n.obj(s, "o_ex_mlp8", xf) for s in xs + [HARN + "/exmlp8.cpp"]]
                n.link("exmlp8", xo + ro + bo + dso, "-lsystemc -lpthread")
            if os.path.exists(HARN + "/exnpu.cpp"):
                xf = fl + " -Inpu -Inpu/modules"
                xs = sorted(glob.glob(BUILD + "/npu/modules/*.cpp")) + [BUILD + "/npu/npu_top.cpp"]
                xo = [n.obj(s, "o_ex_npu", xf) for s in xs + [HARN + "/exnpu.cpp"]]
                n.link("exnpu", xo + ro + bo + dso, "-lsystemc -lpthread")
            # Booksim driven directly: the harness comes first and provides the clock
            for b in ("netsim", "allocsim", "bsconf"):
                if os.path.exists(HARN + "/%s.cpp" % b):
                    o = n.obj(HARN + "/%s.cpp" % b, od, fl)
                    n.link(b, [o] + ro + bo + dso, "-lsystemc -lpthread", "-Wl,--allow-multiple-definition")
    if os.path.exists(HARN + "/dramh.cpp"):
        f2 = dsf + " -DCMD_TRACE"
        o = [n.obj(s, "o_dst", f2) for s in dramsim_srcs()] + [n.obj(HARN + "/dramh.cpp", "o_dst", f2)]
        n.link("dramh", o, "-lpthread")
    write_if_changed(BUILD + "/build.ninja", "\n".join(n.lines))


def sync():
    os.makedirs(SRC, exist_ok=True)
    subprocess.run(["rsync", "-rlpc", "--delete", "--exclude=/build", "--exclude=__pycache__", "--exclude=*.pyc",
                    "--exclude=/sim/radsim_defines.hpp", "--exclude=/sim/radsim_knobs",
                    REPO + "/rad-sim/", SRC + "/"], check=True)


def sync_locked():
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sync()


def build(targets, quiet=True):
    """Build the named binaries and return their paths."""
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sync()
        for v in VARIANTS:
            make_header(v)
        verilate()
        stage_npu()
        gen_ninja()
        r = subprocess.run(["ninja", "-C", BUILD, "-j", str(os.cpu_count() or 4)] + list(targets),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log(r.stdout[-6000:])
            raise BuildError("build failed")
        # each run uses its own copy, so a concurrent rebuild cannot change it
    return {t: os.path.join(BUILD, t) for t in targets}


if __name__ == "__main__":
    build(sys.argv[1:] or ["simh_a"])
