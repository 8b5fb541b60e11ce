#!/usr/bin/env python3
"""One-off preparation: confirms the tools are there and that the harness builds."""
import sys, subprocess
sys.dont_write_bytecode = True
import vlib
vlib.build('driver', 'gsiril', 'methsearch')
subprocess.run(['java', '-version'], check=True, stderr=subprocess.DEVNULL)
print('ok')
