"""C08 parallel-in-time solves agree with the sequential fine solve."""
import vlib, h_ms


def check():
    c = vlib.Check("C08")
    c.model("PararealMC.tla", "PararealMC.cfg", expect_actions=["Round"])
    runs = vlib.drive(h_ms.run, h_ms.scenarios(c, 260 if vlib.QUICK else 4000))
    c.traces("PararealTrace.tla", "PararealTrace.cfg", runs)
    return c.finish(assumptions=["a request for k rounds may be answered with k or k+1", "solves whose rounds diverge beyond 1e4 are left out"])
