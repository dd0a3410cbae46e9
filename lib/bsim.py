"""Booksim networks: which topology/routing pairs exist, what they need, and how
to write a configuration and run the netsim harness."""
import core

TYPES = ("read_request", "write_request", "write_data", "read_reply", "write_reply")
ANY = 5


def mesh(rng, big):
    n = rng.choice([1, 2, 2, 2, 3])
    k = rng.choice({1: [2, 3, 5, 8], 2: [2, 3, 4] + ([6, 8] if big else []), 3: [2] + ([3] if big else [])}[n])
    return {"k": k, "n": n}


def torus(rng, big):
    n = rng.choice([1, 2, 2, 2, 3])
    k = rng.choice({1: [3, 4, 5, 8], 2: [3, 4, 5] + ([6, 8] if big else []), 3: [3]}[n])
    return {"k": k, "n": n}


def cmesh(rng, big):
    k = rng.choice([2, 4] + ([6] if big else []))
    return {"k": k, "n": 2, "c": 4, "x": k, "y": k, "xr": 2, "yr": 2}


def flatfly(rng, big):
    k = rng.choice([2, 4] if big else [2, 2, 4])
    n = 2
    return {"k": k, "n": n, "c": 4, "x": k, "y": k, "xr": 2, "yr": 2}


def nodes(top, kw):
    k, n = kw.get("k", 0), kw.get("n", 0)
    return {"mesh": lambda: k ** n, "torus": lambda: k ** n, "cmesh": lambda: k * k * 4, "flatfly": lambda: 4 * k * k,
            "fly": lambda: k ** n, "fattree": lambda: k ** n, "qtree": lambda: 64, "tree4": lambda: 64,
            "dragonflynew": lambda: {1: 6, 2: 72}[k]}[top]()


# (topology, routing): size generator, VCs needed per class as a function of (nodes, k), traits
# min: every hop leads closer; det: one path; cdg: acyclic channel dependencies; esc: an escape path exists
C = {}


def add(top, rfs, size, need, traits):
    for r in rfs.split():
        C[(top, r)] = (size, need, set(traits.split()))


add("mesh", "dor dim_order", mesh, lambda N, k: 1, "min det cdg")
add("mesh", "xy_yx", lambda r, b: dict(mesh(r, b), n=2), lambda N, k: 2, "min cdg rand")
add("mesh", "adaptive_xy_yx", lambda r, b: dict(mesh(r, b), n=2), lambda N, k: 2, "min cdg rand")
add("mesh", "dim_order_ni", mesh, lambda N, k: N, "min det cdg perdest")
add("mesh", "dim_order_pni", lambda r, b: dict(mesh(r, b), n=2), lambda N, k: k, "min det cdg")
add("mesh", "romm", mesh, lambda N, k: 2, "min cdg rand phase")
add("mesh", "romm_ni", mesh, lambda N, k: N, "min rand cdg perdest")
add("mesh", "min_adapt", mesh, lambda N, k: 2, "min esc adapt")
add("mesh", "planar_adapt", lambda r, b: dict(mesh(r, b), n=2), lambda N, k: 3, "min cdg adapt")
add("mesh", "valiant", mesh, lambda N, k: 2, "rand cdg phase")
add("torus", "dim_order", torus, lambda N, k: 2, "min cdg rand")
add("torus", "dim_order_ni", torus, lambda N, k: N, "min rand cdg perdest")
add("torus", "dim_order_bal", torus, lambda N, k: 2, "min cdg rand")
add("torus", "min_adapt", torus, lambda N, k: 4, "min esc2 adapt rand")
add("torus", "valiant", torus, lambda N, k: 4, "rand cdg phase")
add("torus", "valiant_ni", torus, lambda N, k: 4 * N, "rand cdg phase perdest")
add("cmesh", "dor_no_express", cmesh, lambda N, k: 1, "min det cdg")
add("cmesh", "dor", cmesh, lambda N, k: 1, "det cdg express")
add("cmesh", "xy_yx", cmesh, lambda N, k: 2, "rand cdg express")
add("cmesh", "xy_yx_no_express", cmesh, lambda N, k: 2, "min rand cdg")
add("fly", "dest_tag", lambda r, b: {"k": r.choice([2, 2, 3, 4]), "n": r.choice([1, 2, 3] if b else [1, 2])}, lambda N, k: 1, "min det cdg")
add("fattree", "nca anca", lambda r, b: {"k": r.choice([2, 2, 3]), "n": r.choice([2, 3])}, lambda N, k: 1, "min cdg adapt rand")
add("qtree", "nca", lambda r, b: {"k": 4, "n": 3}, lambda N, k: 1, "min det cdg")
add("tree4", "nca anca", lambda r, b: {"k": 4, "n": 3}, lambda N, k: 1, "min cdg adapt rand")
add("flatfly", "ran_min", flatfly, lambda N, k: 1, "min cdg rand")
add("flatfly", "xyyx adaptive_xyyx", flatfly, lambda N, k: 2, "min cdg rand")
add("flatfly", "valiant", flatfly, lambda N, k: 2, "rand cdg phase")
add("flatfly", "ugal", flatfly, lambda N, k: 2, "rand cdg phase")
add("flatfly", "ugal_pni", lambda r, b: dict(flatfly(r, b), k=4, x=4, y=4), lambda N, k: 2 * k, "rand cdg phase")
add("flatfly", "ugal_xyyx", flatfly, lambda N, k: 4, "rand cdg phase")
add("dragonflynew", "min ugal", lambda r, b: {"k": 2 if b else 1, "n": 1}, lambda N, k: 3, "cdg rand fixedvcs")


def anynet_file(net):
    """net: routers [[ [other, lat or None]...], ...], nodes [[router, lat or None]...], style per line."""
    out = []
    for r, links in enumerate(net["links"]):
        l = ["router %d" % r]
        for n, (rr, lat) in enumerate(net["nodes"]):
            if rr == r and n in net.get("nodelines", ()):
                out.append("node %d router %d" % (n, r) + (" %d" % lat if lat else ""))
            elif rr == r:
                l.append("node %d" % n + (" %d" % lat if lat else ""))
        for o, lat in links:
            l.append("router %d" % o + (" %d" % lat if lat else ""))
        out.append((" " * net.get("sp", 1)).join(l))
    return "\n".join(out) + "\n"


def config_text(cfg):
    return "".join("%s = %s;\n" % kv for kv in cfg.items())


def classes(cfg, vper, split):
    """VC classes as the configuration generator lays them out."""
    n = len(TYPES) if split else 1
    for t, ty in enumerate(TYPES):
        a = t * vper if split else 0
        cfg[ty + "_begin_vc"] = a
        cfg[ty + "_end_vc"] = a + vper - 1
    cfg["num_vcs"] = n * vper


def run(bin_, wd, cfg, scenario, cpu=60, env=None):
    import os
    p = os.path.join(wd, "net.cfg")
    with open(p, "w") as f:
        f.write(config_text(cfg))
    return core.run_proc([bin_, p], cwd=wd, cpu=cpu, stdin=scenario.encode(), env=env)
