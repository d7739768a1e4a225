"""setup_cmd: compiles the Rat module override and runs its self-test under TLC."""
import sys, tempfile, shutil
sys.dont_write_bytecode = True
import vlib
vlib.build()
w = tempfile.mkdtemp()
rc, out, _ = vlib.tlc("RatTest.tla", "RatTest.cfg", w)
shutil.rmtree(w, ignore_errors=True)
if "No error has been found" not in out or rc != 0: print(out[-2000:]); sys.exit(1)
print("setup ok")
