"""C11 a solve depends only on its arguments, never on what was solved before."""
import vlib, h_hist


def check():
    c = vlib.Check("C11")
    c.model("HistoryMC.tla", "HistoryMC.cfg", expect_actions=["Begin", "Renew", "Step", "Finish", "Abort"])
    runs = vlib.drive(h_hist.run, h_hist.scenarios(c, 600 if vlib.QUICK else 12000), limit=120)
    c.traces("HistTrace.tla", "HistTrace.cfg", runs)
    return c.finish(assumptions=["adaptive, implicit and hybrid solves couple the samples of a batch through their step or optimiser: independence of samples is judged on fixed grids"])
