"""C09 all sensitivity methods return the true gradient of the solve."""
import vlib, h_sens


def check():
    c = vlib.Check("C09")
    c.model("SensMC.tla", "SensMC.cfg", expect_actions=["Back", "Jump", "Arrive"])
    runs = vlib.drive(h_sens.run, h_sens.scenarios(c, 240 if vlib.QUICK else 4000, False), limit=90)
    c.traces("SensTrace.tla", "SensTrace.cfg", runs)
    return c.finish(assumptions=["interpolated adjoints are judged where the solution is stored on at least 24 points", "gradients in the time span are judged for direct back-propagation and the adjoint (the interpolated adjoint returns none)"])
