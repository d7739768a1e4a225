"""C05 fixed-step solves step exactly on the given grid and save exactly what was asked."""
import vlib, h_grid


def check():
    c = vlib.Check("C05")
    c.model("FixedGridMC.tla", "FixedGridMC.cfg", expect_actions=["Step", "Done"])
    runs = vlib.drive(h_grid.run, h_grid.scenarios(c, 800 if vlib.QUICK else 12000))
    c.traces("FixedGridTrace.tla", "FixedGridTrace.cfg", runs)
    return c.finish(assumptions=["a save time is on the grid when it equals a grid point, off it when at least a tenth of the smallest gap away"])
