"""C07 hybrid solves localise each event, jump once per event and keep the flow exact."""
import vlib, h_hybrid


def check():
    c = vlib.Check("C07")
    c.model("HybridMC.tla", "HybridMC.cfg", expect_actions=["Start", "Advance", "Fire", "Stop"])
    runs = vlib.drive(h_hybrid.run, h_hybrid.scenarios(c, 500 if vlib.QUICK else 8000))
    c.traces("HybridTrace.tla", "HybridTrace.cfg", runs)
    return c.finish(assumptions=["conditions within 4000 eps of their boundary may be read either way"])
