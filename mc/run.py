import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
prop = sys.argv[1]
sys.modules["core"] = core
if prop == "P29" and not core.SAN:
    core.sanitized(prop)
m = importlib.import_module("p" + prop[1:])
rc = core.main(prop, m.build)
sys.stdout.flush()
os._exit(rc if isinstance(rc, int) else 2)
