#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import harness
harness.main(sys.argv[1])
