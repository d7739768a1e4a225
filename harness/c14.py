"""C14 energy-based models produce the field of their energy."""
import vlib, h_energy


def check():
    c = vlib.Check("C14")
    c.model("EnergyMC.tla", "EnergyMC.cfg", expect_actions=["Mid"])
    runs = vlib.drive(h_energy.run, h_energy.scenarios(c, 480 if vlib.QUICK else 8000))
    c.traces("EnergyTrace.tla", "EnergyTrace.cfg", runs)
    return c.finish(assumptions=["Lagrangians with a well-conditioned mass matrix", "either sign of the skew matrix is accepted, the same for all samples of a batch and its gradients"])
