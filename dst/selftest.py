#!/usr/bin/env python3
"""setup_cmd: nothing to build (the system under test is imported from /repo's working tree by every check); verifies the tools are there."""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import python
p = python()
rc = subprocess.call([p, "-c", "import sys, scipy, numpy, anytree, pandas; assert sys.version_info >= (3, 12), sys.version; assert hasattr(sys, 'monitoring'); print('ok', sys.version.split()[0])"])
sys.exit(rc)
