import importlib.util, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import vt, defs
prop = sys.argv[1]
d = defs.DEFS[prop]
if not isinstance(d, tuple): d = (d, {})
vt.main(d[0], prop, **d[1])
