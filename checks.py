"""The checks, one function per property."""
import os
import clichecks as cc
import conc
from vlib import THOROUGH, ToolError


def lib(c, bin_, models=(), gen=None, module="TraceLib", timeout=800, env=None):
    exe = c.build_core(bin_)
    for m in models:
        if "_" in m:  # a flawed variant of a design: it has to be refuted
            c.flawed(m.split("_")[0], m + ".cfg")
        else:
            c.model(m)
    trace = c.run_harness(exe, input_=gen, env=env)
    c.validate(module, trace, timeout=timeout)


def c01(c):
    gen = os.path.join(c.scratch, "behaviours.txt")
    c.model("GenStore", env={"GEN_OUT": gen}, workers=1)
    c.extra["behaviours_generated"] = sum(1 for _ in open(gen))
    lib(c, "c01", models=["EdgeMap", "EdgeMap_twice", "EdgeMap_oneside"], gen=gen)


def generated(bin_, genmod, module):
    """behaviours generated by TLC are replayed into the code"""
    def f(c):
        gen = os.path.join(c.scratch, "behaviours.txt")
        c.model(genmod, env={"GEN_OUT": gen}, workers=1)
        c.extra["behaviours_generated"] = sum(1 for _ in open(gen))
        lib(c, bin_, gen=gen, module=module)
    return f


def simple(bin_, *models, **kw):
    def f(c):
        lib(c, bin_, models=models, **kw)
    return f


def both(f, g):
    """library part and tool part"""
    def h(c):
        f(c)
        g(c)
    return h


CHECKS = {
    "C01": c01,
    "C02": cc.c02,
    "C03": both(simple("c03", "RoundTrip"), cc.c03),
    "C04": simple("c04", "RoundTrip", module="TraceParse"),
    "C05": conc.c05,
    "C06": conc.c06,
    "C07": both(simple("c07", "Kahn", "Kahn_loops"), cc.c07),
    "C08": both(simple("c08", "CycleEnum", "CycleEnum_onestart"), cc.c08),
    "C09": cc.c09,
    "C10": both(simple("c10", "BestFirst", "BestFirst_first"), cc.c10),
    "C11": both(simple("c11", "Csp", "Csp_revisit"), cc.c11),
    "C12": simple("c12", "Pruning", "Pruning_min", "Pruning_not"),
    "C13": simple("c13", "Pruning"),
    "C14": simple("c14", "BellmanFord", "BellmanFord_rounds"),
    "C15": simple("c15", "FordFulkerson", "FordFulkerson_forward"),
    "C16": simple("c16", "BestFirst", "Walkers", "Walkers_mark"),
    "C17": simple("c17", "Walkers"),
    "C18": generated("c18", "GenAttr", "TraceAttr"),
    "C19": cc.c19,
    "C20": cc.c20,
    "C21": generated("c21", "GenContainers", "TraceContainers"),
    "C22": cc.c22,
    "C23": generated("c23", "GenCycleValue", "TraceLib"),
    "C24": cc.c24,
    "C25": cc.c25,
    "C26": simple("c26", "WalkEnum", "WalkEnum_holds", "WalkEnum_any"),
}
