"""Linear integer reasoning on terms: entailment between conjunctions of inequalities by elimination of variables.
A constraint is (coefficients by atom, constant), meaning  sum + constant >= 0."""
from math import gcd
import terms as T
from terms import *

class NotLinear(Exception): pass

def lin(t):
    """a linear term as (coefficients, constant); quotients by a literal are variables, see divs()"""
    if t[0] == 'ite': raise NotLinear(t)
    p, k = T.lin_parts(t)
    return dict(p), k

def plus(a, b, s=1):
    d = dict(a[0])
    for t, c in b[0].items():
        d[t] = d.get(t, 0) + s * c
        if not d[t]: del d[t]
    return d, a[1] + s * b[1]

def shift(a, k): return a[0], a[1] + k
def ge(x, y): return plus(lin(x), lin(y), -1)
def neg(c): return {t: -v for t, v in c[0].items()}, -c[1] - 1

def eqs(x, y): return [ge(x, y), ge(y, x)]

def atoms(cs):
    out = set()
    for d, _ in cs: out |= set(d)
    return out

def background(cs):
    """what holds of the atoms whatever the program does"""
    out, todo, seen = [], list(atoms(cs)), set()
    while todo:
        t = todo.pop()
        if t in seen: continue
        seen.add(t)
        new = []
        if t[0] == 'app' and t[1] == 'div' and t[2][1][0] == 'int' and t[2][1][1] > 0:
            x, k = lin(t[2][0]); n = t[2][1][1]
            q = {t: n}
            new = [plus((x, k), (q, 0), -1), plus((q, n - 1), (x, k), -1)]
        elif t[0] == 'app' and t[1] == 'rem' and t[2][1][0] == 'int' and t[2][1][1] > 0:
            new = [({t: 1}, 0), ({t: -1}, t[2][1][1] - 1)]
        elif t[0] == 'app' and t[1] == 'sample' and t[2][0][0] == 'app' and t[2][0][1] == 'range':
            lo, hi = t[2][0][2]
            new = [ge(t, lo), shift(ge(hi, t), -1)]
        elif t[0] == 'app' and t[1] == 'len' and t[2][0][0] == 'app':
            v = t[2][0]
            if v[1] == 'init': new = eqs(t, T.add(T.length(v[2][0]), T.I(-1)))
            elif v[1] == 'range':
                lo, hi = v[2]
                if lo == T.I(0) and T.nonneg(hi): new = eqs(t, hi)
                else: new = [ge(t, T.sub(hi, lo))]
        elif t[0] == 'idx': pass
        if T.nonneg(t): new.append(({t: 1}, 0))
        out += new
        todo += [a for a in atoms(new) if a not in seen]
    return out

def tight(c):
    d, k = c
    g = 0
    for v in d.values(): g = gcd(g, abs(v))
    return ({t: v // g for t, v in d.items()}, k // g) if g > 1 else c

def infeasible(cs, limit=4000):
    """no integer satisfies all the constraints (an answer of False may be too weak, never wrong the other way)"""
    cs = list(cs); cs += background(cs)
    work = {}
    def put(c):
        d, k = tight(c)
        if not d: return k >= 0
        key = tuple(sorted(d.items(), key=lambda x: T.rk(x[0])))
        if key not in work or work[key] > k: work[key] = k
        return True
    for c in cs:
        if not put(c): return True
    while work:
        n = {}
        for key in work:
            for t, v in key:
                p = n.setdefault(t, [0, 0]); p[0 if v > 0 else 1] += 1
        t = min(n, key=lambda t: (n[t][0] * n[t][1], T.rk(t)))
        lo, hi = [], []
        for key in [k for k in work if any(a == t for a, _ in k)]:
            d = dict(key)
            (lo if d[t] > 0 else hi).append((d, work.pop(key)))
        for a, ka in lo:
            for b, kb in hi:
                va, vb = a[t], -b[t]
                d = {}
                for s, m in ((a, vb), (b, va)):
                    for x, v in s.items(): d[x] = d.get(x, 0) + m * v
                d = {x: v for x, v in d.items() if v}
                if not put((d, ka * vb + kb * va)): return True
        if len(work) > limit: return False
    return False

def entails(cs, c): return infeasible(list(cs) + [neg(c)])

def of_atom(a, v):
    """the constraint of a partition, or None when it says nothing about numbers"""
    if a[0] == 'ge':
        d = {}
        k = -a[2]
        for t, c in a[1]:
            p, q = T.lin_parts(t)
            for x, y in p.items(): d[x] = d.get(x, 0) + c * y
            k += c * q
        d = {x: y for x, y in d.items() if y}
        return [(d, k)] if v == (True,) else [neg((d, k))] if v == (False,) else []
    if a[0] == 'cmp' and len(v) == 1:
        try: x, y = lin(a[1]), lin(a[2])
        except NotLinear: return []
        m = plus(x, y, -1)
        return {'Equal': [m, ({t: -c for t, c in m[0].items()}, -m[1])], 'Less': [neg(m)], 'Greater': [shift(m, -1)]}[v[0]]
    if a[0] == 'b' and v == (True,) and a[1][0] == 'app' and a[1][1] == 'eq':
        x, y = a[1][2]
        if x[0] == 'int' or y[0] == 'int' or T.nonneg(x) or T.nonneg(y):
            try: return eqs(x, y)
            except NotLinear: return []
    return []

def of_pc(pc):
    out = []
    for a, v in pc.items(): out += of_atom(a, v)
    return out

def covered(region, pieces):
    """every point of the region is in one of the pieces"""
    if infeasible(region): return True
    if not pieces: return False
    head, rest = pieces[0], pieces[1:]
    pre = list(region)
    for c in head:
        if not covered(pre + [neg(c)], rest): return False
        pre.append(c)
    return True

def project(cs, xs):
    """the constraints on the other variables; None when integers would make a difference"""
    cs = list(cs)
    for x in xs:
        lo = [c for c in cs if c[0].get(x, 0) > 0]
        hi = [c for c in cs if c[0].get(x, 0) < 0]
        if any(abs(c[0][x]) != 1 for c in lo + hi): return None
        cs = [c for c in cs if not c[0].get(x, 0)] + [plus(p, q) for p in lo for q in hi]
    return cs
