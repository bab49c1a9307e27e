#!/usr/bin/env python3
"""Build the IR dumper and warm the front end."""
import sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'engine'))
import front
front.irdump_bin()
print('setup ok')
