#!/usr/bin/env python3-vt
"""replay.py FILE: run a recorded counterexample on the real code"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import driver
d = json.load(open(sys.argv[1]))
r = driver.jy_run([dict(fn=d['fn'], params=d['params'], values=d['values'])], d.get('alias') or {})[0]
print(json.dumps(r, indent=1))
sys.exit(1 if r['violated'] else 0)
