"""C22 benchmark systems produce the vector fields they name."""
import vlib, h_sys


def check():
    c = vlib.Check("C22")
    c.model("SystemsMC.tla", "SystemsMC.cfg", expect_actions=["Step"])
    runs = vlib.drive(h_sys.run, h_sys.scenarios(c, 360 if vlib.QUICK else 4800))
    c.traces("SystemsTrace.tla", "SystemsTrace.cfg", runs)
    return c.finish(assumptions=["forcings are kept in single precision", "the depth and activation arguments of the matrix systems are not judged"])
