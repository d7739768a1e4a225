import vlib, h_rk


def check():
    c = vlib.Check("C04")
    c.model("RKTrees.tla", "RKTrees.cfg")
    runs = vlib.drive(h_rk.run, h_rk.scenarios(c, "C04", 160 if vlib.QUICK else 4000))
    c.traces("RKTrace.tla", "RKTrace.cfg", runs, chunk=600)
    return c.finish(assumptions=["smooth vector fields", "methods are one-step methods with a B-series"])
