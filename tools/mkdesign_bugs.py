#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (not read by any check)."""
import json, glob, os
r = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
for d in sorted(os.listdir(r)):
    m = json.load(open(os.path.join(r, d, 'meta.json')))
    print('* `%s` (%s): %s' % (d, m['property'], m['what_it_breaks']))
