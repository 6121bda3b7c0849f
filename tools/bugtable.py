"""prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and the verdicts given as 'id verdict' lines on stdin"""
import glob, json, os, sys
v = dict(l.split(None, 1) for l in sys.stdin if l.strip())
print('| planted bug | property | needs | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob('/verif/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    i = os.path.basename(d)
    print('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), v.get(i, '?').strip()))
