"""C06 integrating over a decreasing span follows the same ODE backwards."""
import vlib, h_back


def check():
    c = vlib.Check("C06")
    c.model("StepBackMC.tla", "StepBackMC.cfg", expect_actions=["Down", "Stay"])
    runs = vlib.drive(h_back.run, h_back.scenarios(c, 500 if vlib.QUICK else 8000))
    c.traces("BackTrace.tla", "BackTrace.cfg", runs)
    return c.finish(assumptions=["the probe that picks an adaptive solver's first step may evaluate the field beyond the span"])
