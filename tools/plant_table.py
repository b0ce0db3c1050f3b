#!/usr/bin/env python3
"""rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ''.join('| %s | %s |\n' % (f.split('/')[-2], json.load(open(f))['needs']) for f in sorted(glob.glob(V + '/seeded/*/meta.json')))
t = open(V + '/DESIGN.md').read()
i = t.index('| change | needs |\n|---|---|\n') + len('| change | needs |\n|---|---|\n')
j = t.index('\n\n', i - 1) + 1
open(V + '/DESIGN.md', 'w').write(t[:i] + rows + t[j:])
