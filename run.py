import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import runner
sys.exit(runner.main(sys.argv[1:]))
