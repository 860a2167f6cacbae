#!/usr/bin/env python3
"""smoke.py [units]: the contradiction test of check.py (thorough tier) alone"""
import sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
from units import UNITS
exe = check.build_extract()
os.makedirs(check.BUILD, exist_ok=True)
for n in sys.argv[1:] or UNITS:
    u = check.Unit(n, exe, 'quick', 1)
    u.go()
    r = check.smoke(u)
    r['accepted'] = r.get('accepted', [])[:20]
    print(n, r)
