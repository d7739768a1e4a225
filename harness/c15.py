"""C15 Galerkin layers apply the weights of their basis expansion at the current depth."""
import vlib, h_gal


def check():
    c = vlib.Check("C15")
    c.model("GalerkinMC.tla", "GalerkinMC.cfg", expect_actions=["Ask"])
    runs = vlib.drive(h_gal.run, h_gal.scenarios(c, 480 if vlib.QUICK else 6000))
    c.traces("GalerkinTrace.tla", "GalerkinTrace.cfg", runs)
    return c.finish(assumptions=["powers are asked for at nonnegative arguments (the frequency grid is not integral)", "trainable centers: a radius per degree and one over all centers are both accepted"])
