#!/usr/bin/python3
"""Nothing is built: check that the analysed sources and the reference definitions parse."""
import ast
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('engine', 'specs', 'checks'):
    for f in os.listdir(os.path.join(HERE, d)):
        if f.endswith('.py'):
            ast.parse(open(os.path.join(HERE, d, f)).read(), f)
print('ok', sys.version.split()[0])
