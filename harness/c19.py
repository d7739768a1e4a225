"""C19 datasets and augmenters produce the documented counts, labels and geometry."""
import vlib, h_data


def check():
    c = vlib.Check("C19")
    c.model("DataMC.tla", "DataMC.cfg", expect_actions=["Walk"])
    runs = vlib.drive(h_data.run, h_data.scenarios(c, 840 if vlib.QUICK else 6000))
    c.traces("DataTrace.tla", "DataTrace.cfg", runs)
    return c.finish(assumptions=["sizes below two points per set are not asked for", "moments and deviations are judged within seven standard deviations"])
