#!/usr/bin/env python3
"""Nothing is kept between runs: every check builds what it needs from /repo. This only proves that the framework builds here."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core
b = core.build()
print('built', b.bin)
