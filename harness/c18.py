"""C18 hypersolver, leapfrog and implicit steps obey their defining equations."""
import vlib, h_other


def check():
    c = vlib.Check("C18")
    c.model("OtherStepsMC.tla", "OtherStepsMC.cfg", expect_actions=["Forward"])
    runs = vlib.drive(h_other.run, h_other.scenarios(c, 600 if vlib.QUICK else 9000))
    c.traces("OtherStepsTrace.tla", "OtherStepsTrace.cfg", runs)
    return c.finish(assumptions=["implicit equations are solved to 1e-4 (float64) or 1e-3 (float32) of the state, the accuracy of the built-in optimiser"])
