"""Writes symx/constants.txt: the name-like string constants of the library as it is now."""
import ast
import glob
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from symx.rewrite import KNOWN, name_constants  # noqa: E402

out = set()
for p in glob.glob('/repo/pydantic_xml/**/*.py', recursive=True):
    out |= name_constants(ast.parse(open(p).read()))
with open(KNOWN, 'w') as f:
    f.write('\n'.join(sorted(out)) + '\n')
print(len(out))
