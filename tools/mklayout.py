#!/usr/bin/env python3
"""writes sa/layout.json: the struct layouts of the confirmed tree (run on the reference tree only)"""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sa'))
import ir
ir._ref.append({})
p = ir.load()
r = {n: ir.layouts(m, {t: f for t, f in m.structs().items() if t and not t.startswith('_IO')}) for n, m in sorted(p.mods.items())}
json.dump(r, open(os.path.join(os.path.dirname(ir.__file__), 'layout.json'), 'w'), indent=0, sort_keys=True)
