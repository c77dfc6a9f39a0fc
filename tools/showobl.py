#!/usr/bin/env python3
"""prints obligations of a kept unit file: showobl.py FILE [substring of name] [max]"""
import json, sys
d = json.load(open(sys.argv[1])); sub = sys.argv[2] if len(sys.argv) > 2 else ''; mx = int(sys.argv[3]) if len(sys.argv) > 3 else 3
N, B = d['nodes'], d['bools']
def n(i, dep=0):
    x = N[i]; t = x[0]
    if dep > 12: return '#%d' % i
    if t in ('k', 'Const', 'const'):
        return str(x[1:])
    return '(%s %s)' % (t, ' '.join(n(y, dep+1) if isinstance(y, int) and t not in ('var','v') else str(y) for y in x[1:]))
def b(i, dep=0):
    x = B[i]; t = x[0]
    if dep > 12: return '?%d' % i
    if t in ('lt', 'eq', 'Lt', 'Eq', '<', '='): return '(%s %s %s)' % (t, n(x[1]), n(x[2]))
    return '(%s %s)' % (t, ' '.join(b(y, dep+1) if isinstance(y, int) else str(y) for y in x[1:]))
if __name__ == '__main__':
    k = 0
    for o in d['obligations']:
        if sub in o['name']:
            print('====', o['name'], o.get('choices'), len(o['facts']))
            for f in o['facts']: print('   ', b(f)[:300])
            print(' =>', b(o['goal'])[:600]); k += 1
            if k >= mx: break
