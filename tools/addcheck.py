#!/usr/bin/env python3
"""addcheck.py ID LEVEL TECHNIQUE BOUNDS: claim a property in tools/checks.py and regenerate."""
import os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(root, 'tools/checks.py')
s = open(f).read().rstrip()
assert s.endswith('}')
i, lvl, tech, bounds = sys.argv[1:5]
s = s[:-1] + f"{i!r}: ({'E' if lvl == 'E' else repr(lvl)}, {tech!r}, {bounds!r}),\n}}\n"
open(f, 'w').write(s)
subprocess.run([sys.executable, os.path.join(root, 'tools/gen_meta.py')], check=True)
