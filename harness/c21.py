"""C21 model and problem wrappers return what the functional solver returns."""
import vlib, h_wrap


def check():
    c = vlib.Check("C21")
    c.model("WrapperMC.tla", "WrapperMC.cfg", expect_actions=["Assign", "Call", "Evaluate", "Answer"])
    k = 1 if vlib.QUICK else 20
    runs = vlib.drive(h_wrap.run, h_wrap.scenarios(c, 640 * k), limit=120) + vlib.drive(h_wrap.run_back, h_wrap.backs(c, 24 * k), limit=300)
    c.traces("WrapperTrace.tla", "WrapperTrace.cfg", runs)
    return c.finish(assumptions=["trajectory() interpolates nothing", "steps of the library do not pass args on to the field: user-defined steps do"])
