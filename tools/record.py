#!/usr/bin/env python3
"""Records verus/baseline_<unit>.json (the shape of the code the contracts were written for). Run on the unchanged tree only."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import check, units
exe = check.build_extract()
os.makedirs(check.BUILD, exist_ok=True)
for u in sys.argv[1:] or units.UNITS:
    check.Unit(u, exe, 'quick', 1).extract(record=os.path.join(check.HERE if hasattr(check, 'HERE') else '/verif', 'verus', 'baseline_%s.json' % u))
