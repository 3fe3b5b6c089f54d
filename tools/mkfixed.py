#!/usr/bin/env python3
"""known-findings.json "fixed" and the table of repairs in DESIGN.md from the fix commits of /repo."""
import json, subprocess, re
PROP = dict(x.split() for x in '''2dfd562 P02
033f44c P02
39202f0 P02
b4ebbc5 P01
97484f1 P02
6fb33cf P02
9d16511 P03
6c7563b P03
737c484 P06
cf9b081 P06
4bf8a2f P06
39198f4 P06
4454808 P06
1982a75 P06
cf7f586 P06
79effc0 P06
b5fb90c P06
7389081 P08
50764f5 P05
1213201 P05
1ee40d8 P07
decdb97 P07
f606e9e P07
f05f855 P07
711df9b P16
e40cd8f P09
e5048a2 P09
5c036ab P09
926a383 P09
32da006 P09
81b796f P09
613298a P09
0f5929c P09
e4ccde2 P09
49ce670 P10
e8ede6f P09
d0be568 P09
4af5a8e P11
572756b P11
4c7ff3f P12
26dbcb6 P12
d1ff1a5 P12
fe6372d P12
a810b83 P12
12769b3 P12
831d41b P16
3914cce P16
a8cf6bf P16
eae6c27 P17
6ff2c3f P21
962c28d P17
b104261 P18
6c99e8a P19
72a7045 P19
1c4e85e P19
e96af12 P20
f3d9587 P20
fe2c027 P22
d648f3c P21
1482b12 P21
f8be0d2 P20
3a08014 P20
879e0a3 P12
b7d2253 P16
5aaa132 P12
9f0291b P16
ea1378c P17
4987ad0 P17
0e70e6d P18
db25adc P18
9b47eff P18
ffcd64f P18
d4827e4 P18
a53ea9c P18
517b617 P17
eae7a1d P13
3fee453 P14
ef840a2 P19
d7abf53 P23
719ac2c P22
93f0477 P22
782979b P22
d157a2b P06
9cc18b1 P24
cce3d4d P24
3c3f4b1 P24
d7ce753 P17
c2ff9fa P17'''.split('\n'))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '531cb6e..HEAD'], text=True).strip().split('\n')
fixed = []
rows = []
for l in log:
    h, m = l.split(' ', 1)
    if not m.startswith('fix:'): continue
    p = next((v for k, v in PROP.items() if h.startswith(k) or k.startswith(h)), None)
    if not p: print('no property for', l); continue
    fixed.append('fixed: property=%s %s %s' % (p, h, m[5:].strip()))
    rows.append((p, h, m[5:].strip()))
k = json.load(open('known-findings.json')); k['fixed'] = fixed
open('known-findings.json', 'w').write(json.dumps(k, indent=1) + '\n')
d = open('DESIGN.md').read()
t = '<!-- fixes -->\n| property | commit | what failed |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % r for r in sorted(rows, key=lambda r: r[0])) + '<!-- /fixes -->'
d = re.sub(r'<!-- fixes -->.*<!-- /fixes -->', lambda m: t, d, flags=re.S)
open('DESIGN.md', 'w').write(d)
