#!/usr/bin/env python3
"""writes DESIGN.md from design_*.md and seeded/*/meta.json"""
import json,glob,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
r=lambda n: open('tools/design_%s.md'%n).read().strip()+'\n\n'
o=r('head')+r('body')
o+='''## 3. Planted bugs

Each of these compiles, passes the repository's tests, and is caught by the check of its property in the quick
tier (`tools/seed.py test ID`). Checks were strengthened where they missed one at first.

| bug | check | manifests with |
|---|---|---|
'''
for f in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(f))
    o+='| %s | %s | %s |\n'%(f.split('/')[1],m['property'],m['needs'].replace('|','\\|'))
o+='\n'+r('tail')
open('DESIGN.md','w').write(o.strip()+'\n')
