"""C20 solutions converge to the true solution as tolerances or steps shrink."""
import vlib, h_closed


def check():
    c = vlib.Check("C20")
    c.model("ClosedMC.tla", "ClosedMC.cfg", expect_actions=["Step"])
    runs = vlib.drive(h_closed.run, h_closed.scenarios(c, 700 if vlib.QUICK else 8000), limit=60)
    c.traces("ClosedTrace.tla", "ClosedTrace.cfg", runs, timeout=800)
    return c.finish(assumptions=["amplification of local errors bounded by the problem's one-sided Lipschitz constant"])
