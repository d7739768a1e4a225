"""C13 normalizing flows integrate the exact (or unbiased) negative Jacobian trace."""
import vlib, h_cnf


def check():
    c = vlib.Check("C13")
    c.model("CNFMC.tla", "CNFMC.cfg", expect_actions=["Start", "Draw", "Eval", "Finish"])
    runs = vlib.drive(h_cnf.run, h_cnf.scenarios(c, 320 if vlib.QUICK else 6000))
    c.traces("CNFTrace.tla", "CNFTrace.cfg", runs)
    return c.finish(assumptions=["a backward pass is made before the next solve of the same model starts", "higher-order flows are not available in the library"])
