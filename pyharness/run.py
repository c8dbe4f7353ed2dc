"""Runs the tests of one property of pykep: run.py SITE --property K30 [...], with pykep put together in SITE."""
import os
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
site = sys.argv.pop(1)
sys.path[:0] = [site, os.path.join(here, "fakes"), here]
import warnings

warnings.simplefilter("ignore")
import pbt

try:
    import pykep
    problem = None
except Exception as e:
    problem = repr(e)
if problem is None:
    import p_functions
    import p_objects
    import p_epochs
    import p_planets
    import p_mga
    import p_direct
    import p_adapters
    import p_plots
else:
    # A package that cannot be imported keeps none of its promises.
    prop = sys.argv[sys.argv.index("--property") + 1]

    @pbt.test(prop, "pykep can be imported", 1, 1)
    def importing(c):
        c.require(False, "import pykep: " + problem)

sys.exit(pbt.main())
