"""C10 integral losses are integrated along the trajectory and differentiated correctly."""
import vlib, h_sens


def check():
    c = vlib.Check("C10")
    c.model("SensMC.tla", "SensMC.cfg", expect_actions=["Back", "Jump", "Arrive"])
    runs = vlib.drive(h_sens.run, h_sens.scenarios(c, 240 if vlib.QUICK else 4000, True), limit=90)
    c.traces("SensTrace.tla", "SensTrace.cfg", runs)
    return c.finish(assumptions=["interpolated adjoints are judged where the solution is stored on at least 24 points"])
