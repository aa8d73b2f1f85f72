#!/usr/bin/env python3
"""replay.py FILE: run one recorded case again. Exit 1 if it violates the property as recorded."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import harness
d, o = harness.replay(sys.argv[1])
if o.bad is None:
    print('no violation'); sys.exit(0)
print('%s: %s' % o.bad)
if o.bad[0] != d.get('class', o.bad[0]):
    print('a different violation than recorded (%s)' % d.get('class')); sys.exit(3)
if d.get('hash') and d['hash'] != o.hash.hexdigest():
    print('the execution differs from the recorded one'); sys.exit(4)
print('REPRODUCED'); sys.exit(1)
