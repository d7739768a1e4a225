"""C12 vector-field adapters give the model the right time, state, args and control."""
import vlib, h_adapt


def check():
    c = vlib.Check("C12")
    c.model("AdapterMC.tla", "AdapterMC.cfg", expect_actions=["Solve", "Ask", "Give", "Field", "Answers", "Finish"])
    runs = vlib.drive(h_adapt.run, h_adapt.scenarios(c, 500 if vlib.QUICK else 8000))
    c.traces("AdapterTrace.tla", "AdapterTrace.cfg", runs)
    return c.finish(assumptions=["the solvers of the library do not pass args on to the field: user-defined steps do", "evaluations of adjoint solves carry no args"])
