#!/usr/bin/env python3
"""Writes the generated parts of DESIGN.md: bounds, fixes and planted bugs."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def bounds():
    out = ['', '### Bounds of every harness', '', '| harness | tier | floats | bound, and assumptions |', '|---|---|---|---|']
    for f in sorted(glob.glob(V + '/harness/c[0-9][0-9]/*.go')):
        pid = os.path.basename(os.path.dirname(f)).upper()
        txt = open(f).read()
        for m in re.finditer(r'((?://[^\n]*\n)+)func (Check\w+)\(\)', txt):
            c, name = m.groups()
            opts = dict(o.split('=', 1) for l in re.findall(r'//sym:opt (.*)', c) for o in l.split() if '=' in o)
            b = '; '.join(re.findall(r'//sym:bound (.*)', c)) or '-'
            a = re.findall(r'//sym:assume (.*)', c)
            if a:
                b += '. Assumes: ' + '; '.join(a)
            out.append('| %s %s | %s | %s | %s |' % (pid, name, opts.get('tier', 'quick'), opts.get('float', 'ieee'), b.replace('|', '\\|')))
    return '\n'.join(out) + '\n'


def fixes():
    r = []
    for l in open(V + '/known-findings.txt'):
        m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l.strip())
        if m:
            r.append('- %s (%s): %s' % m.groups())
    return '\n'.join(r) + '\n'


def seeds():
    r = ['| seed | property | what it breaks | what it needs | caught by |', '|---|---|---|---|---|']
    for d in sorted(glob.glob(V + '/seeded/*')):
        m = json.load(open(d + '/meta.json'))
        r.append('| %s | %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|'), m['property']))
    return '\n'.join(r) + '\n'


def splice(s, tag, new):
    b, e = '<!-- BEGIN generated %s -->' % tag, '<!-- END generated %s -->' % tag
    i, j = s.index(b) + len(b), s.index(e)
    return s[:i] + '\n' + new + s[j:]


s = open(V + '/DESIGN.md').read()
for tag, f in (('bounds', bounds), ('fixes', fixes), ('seeds', seeds)):
    s = splice(s, tag, f())
open(V + '/DESIGN.md', 'w').write(s)
