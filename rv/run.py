"""usage: run.py C02 [--tier T] [--seed N] [--replay FILE]   (started through ../check.sh)"""
import sys, os, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from rv import core
sys.path.insert(0, core.REPO)
sys.dont_write_bytecode = True
from rv import sched
if sys.argv[1] in ("C11", "C12", "C22"): sched.install(os.path.join(os.path.realpath(core.REPO), "pcollections") + os.sep)
import pcollections
want = os.path.realpath(os.path.join(core.REPO, 'pcollections', '__init__.py'))
if os.path.realpath(pcollections.__file__) != want:
    print('wrong pcollections:', pcollections.__file__); sys.exit(3)
mod = importlib.import_module('rv.checks.' + sys.argv[1].lower())
rc = core.main(mod, sys.argv[2:])
sys.stdout.flush()
os._exit(rc)
