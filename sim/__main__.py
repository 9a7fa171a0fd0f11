import sys

from sim.main import main

try:
    code = main(sys.argv[1:])
except Exception:  # a fault of the harness is neither 0 nor 1
    import traceback
    traceback.print_exc()
    code = 2
sys.stdout.flush()
sys.exit(code)
