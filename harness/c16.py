"""C16 root finding follows its update rule and stop test."""
import vlib, h_root


def check():
    c = vlib.Check("C16")
    c.model("RootMC.tla", "RootMC.cfg", expect_actions=["Step"])
    runs = vlib.drive(h_root.run, h_root.scenarios(c, 2000 if vlib.QUICK else 30000))
    got = c.traces("RootTrace.tla", "RootTrace.cfg", runs)
    return c.finish(assumptions=["iterations are judged while the rounding error of the estimate, as bounded by the specification, is below a thousandth of it", "limit k may mean k or k+1 rounds"])
