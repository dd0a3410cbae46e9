"""E06: the DLRM example split over two devices computes what the one-device version computes."""
import e03


class E06(e03.E03):
    prop = "E06"
    targets = ["exdlrmtwo32"]
    design, exe, rads = "dlrm_two_rad", "exdlrmtwo", 2
    technique = "property-based testing: generated tables, lookups, crossbar programs, networks, memories, placements, inter-device latency and bandwidth and pacing through the unmodified two-device DLRM example, outputs compared with a reference model; planted mismatches against the driver's verdict"
    quick_n = 40
    thorough_n = 700
    cpu_limit = 240
    assumptions = ["16-bit elements; 32 lanes (the portal always sends the widest word, so engines with narrower ports are outside what it can feed)", "fewer beats in flight than the inter-device queues hold ", "both devices use one placement file, as the example does"]

    def gen(self, rng, i, tier):
        while True:
            c = super().gen(rng, i, tier)
            tot = rng.choice([1, 1, 3, 10])
            c["ir"] = dict(lat=rng.choice([1, 2, 20, 420]), acc=rng.choice([1, tot]), tot=tot, slots=1000)
            if c["lanes"] == 32 and (c["tool"] and len(c["order"]) > 64 or not c["tool"] and c["chunks"] * c["n"] < 900):
                return c

    def shrink(self, case):
        d = dict(lat=1, acc=1, tot=1, slots=1000)
        if case["ir"] != d:
            yield dict(case, ir=d)
        for c in super().shrink(case):
            yield c


CHECK = E06()
