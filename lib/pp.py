"""Human readable rendering of terms."""
def short(p):
    p = p.replace('crate::', '')
    if p.startswith('<') and ' as ' in p:
        a, b = p[1:].split(' as ', 1)
        return a.split('::')[-1].split('<')[0] + '::' + b.split('::')[-1]
    parts = p.split('::')
    return '::'.join(parts[-2:]) if len(parts) > 1 and parts[-2][:1].isupper() else parts[-1]

FN = {}
def names(P):
    for p, a in P.adts.items():
        for v in a['variants']: FN[(p, v['name'])] = [f[0] for f in v['fields']]

def pt(t, d=0):
    if not isinstance(t, tuple): return str(t)
    k = t[0]
    if d > 12: return '..'
    r = lambda x: pt(x, d + 1)
    if k == 'sym': return t[1]
    if k == 'int': return str(t[1])
    if k == 'bool': return 'true' if t[1] else 'false'
    if k == 'str': return repr(t[1])
    if k == 'char': return repr(t[1])
    if k == 'bv': return 'x%d' % t[1]
    if k == 'lin': return '(' + ' + '.join(('%s' if c == 1 else str(c) + '*%s') % r(x) for x, c in t[1]) + (' + %d' % t[2] if t[2] else '') + ')'
    if k == 'tup': return '(' + ', '.join(map(r, t[1])) + ')'
    if k == 'adt':
        n = t[2] if t[1].split('::')[-1] == t[2] else t[2]
        return n + ('(' + ', '.join(map(r, t[3])) + ')' if t[3] else '')
    if k == 'fld':
        ns = FN.get((t[2], t[3]))
        f = ns[t[4]] if ns and t[4] < len(ns) else str(t[4])
        multi = t[3] and t[2] != 'tuple' and t[2].split('::')[-1] != t[3]
        return '%s.%s%s' % (r(t[1]), (t[3] + '.') if multi else '', f)
    if k == 'app': return short(t[1]) + '(' + ', '.join(map(r, t[2])) + ')'
    if k == 'coll':
        o, c = {'seq': '[]', 'set': '{}', 'map': '{}'}[t[1]]
        return ('map' if t[1] == 'map' else '') + o + ', '.join(r(g) for g in t[2]) + c
    if k == 'one': return r(t[1])
    if k == 'spread': return '..' + r(t[1])
    if k == 'for': return '%s | x%d in %s' % (r(t[3]), t[1], r(t[2]))
    if k == 'gens': return '<' + ', '.join(map(r, t[1])) + '>'
    if k == 'exists': return '(EX x%d in %s: %s)' % (t[1], r(t[2]), r(t[3]))
    if k == 'sum': return '(SUM x%d in %s: %s)' % (t[1], r(t[2]), r(t[3]))
    if k == 'first': return '(FIRST x%d in %s: %s)' % (t[1], r(t[2]), r(t[3]))
    if k == 'fold': return '(FOLD x%d in %s from %s: %s)' % (t[1], r(t[2]), r(t[3]), r(t[4]))
    if k == 'idx': return 'index_of(%s)' % r(t[1])
    if k == 'vn': return t[1]
    if k == 'ite': return '{' + pa(t[1], d + 1) + '? ' + '; '.join('%s: %s' % (v if not isinstance(v, bool) else 'TF'[not v], r(c)) for v, c in t[2]) + '}'
    if k == 'clo': return 'closure(%s)' % short(t[1])
    if k == 'fn': return 'fn ' + short(t[1])
    if k == 'static': return short(t[1])
    if k == 'leaf': return r(t[1])
    return str(t)[:200]

def pa(a, d=0):
    if a[0] == 'b': return pt(a[1], d)
    if a[0] == 'disc': return 'variant(%s)' % pt(a[1], d)
    if a[0] == 'ge': return '%s >= %d' % (' + '.join(('' if c == 1 else '%d*' % c) + pt(x, d) for x, c in a[1]), a[2])
    if a[0] == 'cmp': return 'cmp(%s,%s)' % (pt(a[1], d), pt(a[2], d))
    return str(a)

def ppc(pc):
    out = []
    for a, v in pc.items():
        if v == (True,): out.append(pa(a))
        elif v == (False,): out.append('!' + pa(a))
        elif len(v) == 1: out.append('%s=%s' % (pa(a), v[0]))
        else: out.append('%s in {%s}' % (pa(a), ','.join(map(str, v))))
    return ' && '.join(out) or 'always'
