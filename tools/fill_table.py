#!/usr/bin/env python3
"""Put the table of planted bugs between the markers in DESIGN.md."""
import os, re, subprocess, sys
D = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(D, '..', 'DESIGN.md')
t = subprocess.run([sys.executable, os.path.join(D, 'table.py')], stdout=subprocess.PIPE, text=True, check=True).stdout
s = open(p).read()
s = re.sub(r'<!-- table -->.*?<!-- end -->', lambda m: '<!-- table -->\n' + t + '<!-- end -->', s, flags=re.S)
open(p, 'w').write(s)
