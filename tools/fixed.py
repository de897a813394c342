#!/usr/bin/env python3
# Rewrites the "fixed:" lines of known_findings.txt from the fix commits in /repo (property per commit below).
import subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = """8a01760 P02
539b5ab P01
6861c26 P03
db0e30b P03
f02233d P02
056467a P02
56493d4 P02
d5f9fc5 P14
8f040bb P20
10bdd95 P20
195b69b P20
dd2149f P21
143790b P21
d453c7b P21
17aa19b P21
1086f0a P20
60628f9 P01
348da31 P02
be90880 P02
921fd17 P01
87fdf6a P20
1a3a447 P14
073bfe3 P14
1d0c0e8 P11
1fbfd07 P11
26ee5cb P09
cdbf5ac P08
c20adb8 P17
ba87716 P10
fbdfc29 P10
3fd9e75 P10
9314f39 P16
037bd92 P12
676ddaa P13
9f0181c P12
20bb104 P13
23a28cd P13
8da5a84 P13
a76ea18 P12
649793c P16
10d3d9e P16
35b6833 P27
47f9ddc P12
ccc01cc P11
9bca068 P22
191445d P28
1d8d157 P05
f01c03c P07
44950a4 P05
2f820a0 P24
d7e906a P20
98906e8 P06
b35cac1 P20
615d240 P20
9065ce6 P22
793ba1a P21
3a6aba4 P20
72d7e2a P11
64d1c14 P12
0c5f0b4 P14
16a45a0 P15
2b02cde P28
6f14ad2 P27
dfa60ca P29
b3fcf97 P29
e669cfe P05
cd316b4 P23
"""
prop = dict(l.split() for l in PROP.split("\n") if l)
for l in open(os.path.join(ROOT, 'tools', 'fixed_more.txt')) if os.path.exists(os.path.join(ROOT, 'tools', 'fixed_more.txt')) else []:
    if l.strip(): prop[l.split()[0]] = l.split()[1]
f = os.path.join(ROOT, 'known_findings.txt')
keep = [l for l in (open(f).read().split("\n") if os.path.exists(f) else []) if l and not l.startswith('fixed:')]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '8eab19c..HEAD'], capture_output=True, text=True).stdout
out = []
for l in log.split("\n"):
    if ' fix: ' not in l: continue
    h, msg = l.split(' fix: ', 1)
    if h not in prop: print('no property for', l); continue
    out.append('fixed: property=%s %s %s' % (prop[h], h, msg))
open(f, 'w').write("\n".join(keep + out) + "\n")
print(len(out), 'fixed')
