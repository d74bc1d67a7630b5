#!/usr/bin/env python3
"""Pretty-print the extracted MIR of functions whose path contains an argument (debugging aid)."""
import json, sys
d = json.load(open('/verif/build/out/giron.json'))
T = d['types']
def pl(p):
    s = '_%d' % p[0]
    for e in p[1:]:
        if e[0] == '*': s = '(*%s)' % s
        elif e[0] == 'f': s += '.%d' % e[1]
        elif e[0] == 'd': s += '@%d' % e[1]
        else: s += str(e)
    return s
def cst(c):
    k = c['k']
    if k == 'fn': return 'fn ' + (c['f']['r'] or c['f']['p'])
    if k in ('int', 'str'): return repr(c['v'])
    return json.dumps({a: b for a, b in c.items() if a != 't'})
def op(o):
    return ('' if o[0] == 'c' else 'move ') + pl(o[1]) if o[0] in 'cm' else (cst(o[1]) if o[0] == 'k' else str(o))
def rv(r):
    k = r[0]
    if k == 'use': return op(r[1])
    if k == 'ref': return '&%s %s' % (r[2], pl(r[1]))
    if k == 'discr': return 'discr %s' % pl(r[1])
    if k == 'bin': return '%s(%s, %s)' % (r[1], op(r[2]), op(r[3]))
    if k == 'un': return '%s(%s)' % (r[1], op(r[2]))
    if k == 'agg': return 'agg %s {%s}' % (r[1], ', '.join(map(op, r[2])))
    if k == 'cast': return 'cast[%s] %s as %s' % (r[1], op(r[2]), T[r[3]]['s'])
    return str(r)
def show(b):
    for i, (t, n) in enumerate(b['locals']): print('   let _%d%s: %s' % (i, '=' + n if n else '', T[t]['s'][:100]))
    for i, bb in enumerate(b['blocks']):
        if bb['cl']: continue
        print(' bb%d:' % i)
        for s in bb['s']:
            if s[0] == '=': print('    %s = %s' % (pl(s[1]), rv(s[2])))
            elif s[0] in ('live','dead'): pass
            else: print('   ', s)
        t = bb['t']
        if t[0] == 'call': print('    CALL %s = %s(%s) -> %s   // %s %s' % (pl(t[3]), op(t[1]), ', '.join(map(op, t[2])), t[4], bb['sp'], bb['mb']))
        elif t[0] == 'switch': print('    switch %s %s else %s' % (op(t[1]), t[3], t[4]))
        else: print('    ', t)
for n, f in d['fns'].items():
    if any(a in n for a in sys.argv[1:]):
        print('==', n, f['kind'], f['body']['args']); show(f['body'])
        for i, p in enumerate(f['promoted']): print(' promoted', i); show(p)
