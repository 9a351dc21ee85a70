#!/usr/bin/env python3
"""setup: checks that the toolchain the checks need is present and that the analyser's own rules fire"""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from ikbtsa.poly import anyexpr, fn, is_zero, sin, cos, sqrt   # noqa: E402
A, B, C = map(anyexpr, 'ABC')
t = sqrt(A * A + B * B - C * C)
u = fn('atan2', A, B) + fn('atan2', t, C)
assert is_zero(A * sin(u) + B * cos(u) - C), 'polynomial normal forms broken'
assert not is_zero(B * sin(u) + A * cos(u) - C)
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
print('setup ok')
