"""setup_cmd: builds the extensions of /repo's current tree once (cached by content) and checks the tools."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.boot()
os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
print("ready")
core._cleanup()
os._exit(0)
