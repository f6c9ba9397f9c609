#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
here=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(here)
rows=''.join(f"| {os.path.basename(os.path.dirname(f))} | {json.load(open(f))['needs']} |\n" for f in sorted(glob.glob(V+'/seeded/*/meta.json')))
p=V+'/DESIGN.md'; s=open(p).read(); h='|---|---|\n'; a=s.index('| planted bug |'); a=s.index(h,a)+len(h); b=s.index('\n\n',a)+1
open(p,'w').write(s[:a]+rows+s[b:])
