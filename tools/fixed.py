#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT WHAT: append a 'fixed' record to known_findings.jsonl."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p, c, what = sys.argv[1:4]
with open(os.path.join(root, 'known_findings.jsonl'), 'a') as f:
    f.write(json.dumps(dict(status='fixed', property=p, commit=c, key='', what=what, text=f'fixed: property={p} {c} {what}'), ensure_ascii=False) + '\n')
