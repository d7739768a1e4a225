"""C17 SDE solves apply their scheme to the given noise path; wrong calculus is refused."""
import vlib, h_sde


def check():
    c = vlib.Check("C17")
    c.model("SDEMC.tla", "SDEMC.cfg", expect_actions=["Step", "Done"])
    runs = vlib.drive(h_sde.run, h_sde.scenarios(c, 500 if vlib.QUICK else 8000))
    c.traces("SDETrace.tla", "SDETrace.cfg", runs)
    return c.finish(assumptions=["the noise path is a callable of two times, recorded; diffusion acts entry by entry"])
