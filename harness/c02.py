"""C02 adaptive error control keeps only steps within tolerance; rejects leave no trace."""
import vlib, h_step


def check():
    c = vlib.Check("C02")
    c.model("StepControlMC.tla", "StepControlMC.cfg", expect_actions=["AcceptPlain", "AcceptLand", "RejectPlain", "RejectLand"])
    n = (700, 120) if vlib.QUICK else (12000, 1500)
    runs = vlib.drive(h_step.run, h_step.scenarios(c, "control", *n))
    c.traces("StepControlTrace.tla", "StepControlTrace.cfg", runs)
    return c.finish(assumptions=["finite field values and error estimates"])
