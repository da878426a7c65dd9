#!/usr/bin/env python3
"""setup_cmd: the framework needs no build, only that its files parse."""
import ast
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
n = 0
for d, _, fs in os.walk(os.path.join(HERE, 'sa')):
  for f in fs:
    if f.endswith('.py'):
      ast.parse(open(os.path.join(d, f), encoding='utf8').read())
      n += 1
print(n, 'files parse')
