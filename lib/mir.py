"""Loading and pretty-printing of the facts dumped by driver/."""
import json, sys
import terms as T

UINTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize')

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.bodies = {}
        for b in d['bodies']:
            self.bodies[b['key']] = b
            r = b['locals'][0]
            if r in UINTS: T.UFNS.add(b['key'])
            elif r.startswith('std::option::Option<') and r[20:-1] in UINTS: T.UOPTFNS.add(b['key'])
        self.adts = {a['path']: a for a in d['adts']}
        self.impls = d['impls']
        self.variants = {}
        for p, a in self.adts.items():
            self.variants[p] = [v['name'] for v in a['variants']]
            for v in a['variants']:
                for i, f in enumerate(v['fields']):
                    if f[1] in UINTS: T.UFIELDS.add((p, v['name'], i))
        self.auto = set()
        for i in self.impls:
            if i['auto']:
                self.auto.update(i['items'])

    def adt(self, path):
        return self.adts.get(path)

    def field_names(self, path, variant):
        a = self.adts.get(path)
        if not a:
            return None
        for v in a['variants']:
            if v['name'] == variant:
                return [f[0] for f in v['fields']]
        return None

    def discr_to_variant(self, path):
        a = self.adts.get(path)
        if not a:
            return None
        return {v['discr']: v['name'] for v in a['variants']}

    def find(self, suffix):
        return [k for k in self.bodies if k.endswith(suffix)]


def pplace(p):
    s = '_%d' % p[0]
    for e in p[1]:
        if e[0] == '*': s = '(*%s)' % s
        elif e[0] == 'f': s = '%s.%s' % (s, e[2] or e[1])
        elif e[0] == 'v': s = '(%s as %s)' % (s, e[2])
        elif e[0] == 'i': s = '%s[_%d]' % (s, e[1])
        else: s = '%s.%r' % (s, e)
    return s

def pop(o):
    if o[0] in 'cm': return pplace(o[1])
    if o[0] == 'k':
        c = o[1]
        if 'fn' in c: return 'fn ' + (c.get('res') or c['fn'])
        return 'const ' + json.dumps(c, ensure_ascii=False)
    return str(o)

def prv(r):
    k = r[0]
    if k == 'use': return pop(r[1])
    if k == 'ref': return '&' + ('mut ' if r[1] else '') + pplace(r[2])
    if k == 'cast': return '%s as %s (%s)' % (pop(r[2]), r[3], r[1][:20])
    if k == 'bin': return '%s(%s, %s)' % (r[1], pop(r[2]), pop(r[3]))
    if k == 'un': return '%s(%s)' % (r[1], pop(r[2]))
    if k == 'disc': return 'disc(%s : %s)' % (pplace(r[1]), r[2])
    if k == 'agg': return '%s{%s}' % (r[1], ', '.join(pop(x) for x in r[2]))
    return str(r)

def pbody(b):
    out = ['fn %s argc=%d  %s:%d' % (b['key'], b['argc'], b['file'], b['line'])]
    for i, t in enumerate(b['locals']):
        n = b['names'].get(str(i))
        if n or i <= b['argc']: out.append('  let _%d: %s %s' % (i, t, n or ''))
    for i, bb in enumerate(b['blocks']):
        if bb is None: continue
        out.append(' bb%d:' % i)
        for st in bb[0]:
            if st[0] == 'setdisc': out.append('   setdisc'); continue
            out.append('   %s = %s   @%d' % (pplace(st[1]), prv(st[2]), st[0]))
        t = bb[1]
        if t[0] == 'call':
            out.append('   %s = call %s(%s) -> %s @%d' % (pplace(t[4]), pop(t[2]), ', '.join(pop(x) for x in t[3]), t[5], t[1]))
        elif t[0] == 'switch':
            out.append('   switch %s : %s %s else %s' % (pop(t[2]), t[3], t[4], t[5]))
        elif t[0] == 'assert':
            out.append('   assert %s == %s -> %s (%s)' % (pop(t[2]), t[3], t[4], t[5]))
        else: out.append('   ' + str(t))
    return '\n'.join(out)

if __name__ == '__main__':
    P = Program(sys.argv[1])
    for k in P.bodies:
        if sys.argv[2] in k:
            print(pbody(P.bodies[k])); print()
