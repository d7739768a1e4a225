"""C01 adaptive solves return exactly the requested times, each with its own state."""
import vlib, h_step


def check():
    c = vlib.Check("C01")
    c.model("StepControlMC.tla", "StepControlMC.cfg", expect_actions=["AcceptPlain", "AcceptLand", "RejectPlain", "RejectLand"])
    n = (700, 120) if vlib.QUICK else (12000, 1500)
    runs = vlib.drive(h_step.run, h_step.scenarios(c, "output", *n))
    c.traces("StepControlTrace.tla", "StepControlTrace.cfg", runs)
    return c.finish(assumptions=["finite field values and error estimates", "requested times strictly increasing and more than a few ulps apart"])
