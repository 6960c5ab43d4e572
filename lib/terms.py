"""Abstract value domain: hash-consed terms with canonical constructors.

Every value the analysis computes is a term built only through the constructors below, which keep it in
normal form: integer expressions are linear forms, booleans are ordered decision trees over atoms, collections
are sequences/sets of generators (comprehensions) with de Bruijn-like binder heights.
"""
import functools

TRUE = ('bool', True)
FALSE = ('bool', False)
UNIT = ('tup', ())
UNDEF = ('undef',)
BINDERS = {'for', 'exists', 'sum', 'fold', 'first', 'foldst'}

def B(x): return TRUE if x else FALSE
def I(n): return ('int', n)
def sym(n, ty=''): return ('sym', n, ty)
def app(f, *args): return ('app', f, tuple(args))
def tup(*a): return ('tup', tuple(a))

_rk = {}
def rk(t):
    r = _rk.get(t)
    if r is None:
        r = _rk[t] = repr(t)
    return r

_hc = {}
def height(t):
    """1 + highest binder height occurring in t (0 when binder free)"""
    if not isinstance(t, tuple): return 0
    r = _hc.get(t)
    if r is not None: return r
    h = 0
    if t and t[0] in BINDERS and len(t) > 1 and isinstance(t[1], int):
        h = t[1] + 1
    for x in t:
        if isinstance(x, tuple):
            k = height(x)
            if k > h: h = k
    _hc[t] = h
    return h

_sub_depth = [0]
def mentions(t, x, memo=None):
    if t == x: return True
    if not isinstance(t, tuple): return False
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    r = any(mentions(c, x, memo) for c in t if isinstance(c, tuple))
    memo[t] = r
    return r

def mentions_any(t, pred, memo=None):
    if not isinstance(t, tuple): return False
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    r = (bool(t) and isinstance(t[0], str) and pred(t)) or any(mentions_any(c, pred, memo) for c in t if isinstance(c, tuple))
    memo[t] = r
    return r

# ---------------------------------------------------------------- integers
def lin_parts(t):
    if t[0] == 'int': return {}, t[1]
    if t[0] == 'lin': return dict(t[1]), t[2]
    return {t: 1}, 0

def mk_lin(parts, k):
    items = tuple(sorted(((t, c) for t, c in parts.items() if c != 0), key=lambda x: rk(x[0])))
    if not items: return ('int', k)
    if len(items) == 1 and items[0][1] == 1 and k == 0: return items[0][0]
    return ('lin', items, k)

def push1(f, t):
    """apply f over the leaves of a decision tree"""
    if t[0] == 'ite':
        return mk_ite(t[1], {v: push1(f, c) for v, c in t[2]})
    return f(t)

def add(a, b, sb=1):
    if a[0] == 'ite': return push1(lambda x: add(x, b, sb), a)
    if b[0] == 'ite': return push1(lambda x: add(a, x, sb), b)
    pa, ka = lin_parts(a)
    pb, kb = lin_parts(b)
    d = dict(pa)
    for t, c in pb.items(): d[t] = d.get(t, 0) + sb * c
    return mk_lin(d, ka + sb * kb)

def sub(a, b): return add(a, b, -1)

def mul(a, b):
    if a[0] == 'int' and b[0] == 'int': return I(a[1] * b[1])
    if a[0] == 'int': a, b = b, a
    if b[0] == 'int':
        p, k = lin_parts(a)
        return mk_lin({t: c * b[1] for t, c in p.items()}, k * b[1])
    x, y = sorted((a, b), key=rk)
    return app('mul', x, y)

NONNEG_APPS = {'len', 'sum', 'idx'}
def nonneg(t):
    if t[0] == 'sym': return t[2].lstrip('&').startswith('u')
    if t[0] in ('app',):
        if t[1] == 'sample' and t[2][0][0] == 'app' and t[2][0][1] == 'range': return t[2][0][2][0] == I(0) or nonneg(t[2][0][2][0])
        if t[1] in ('div', 'rem'): return all(x[0] == 'int' and x[1] >= 0 or nonneg(x) for x in t[2])
        return t[1] in NONNEG_APPS or t[1] in UFNS
    if t[0] in ('idx', 'sum'): return True
    if t[0] == 'fld': return (t[2], t[3], t[4]) in UFIELDS or t[2] == OPTION and t[3] == 'Some' and t[1][0] == 'app' and t[1][1] in UOPTFNS
    return False

UFIELDS = set()         # fields of an unsigned type
UFNS, UOPTFNS = set(), set()    # functions that return a value, an optional value, of an unsigned type

def ge0(t):
    """boolean term for  t >= 0"""
    if t[0] == 'ite': return push1(ge0, t)
    if t[0] == 'int': return B(t[1] >= 0)
    p, k = lin_parts(t)
    items = sorted(p.items(), key=lambda x: rk(x[0]))
    from math import gcd
    g = 0
    for _, c in items: g = gcd(g, abs(c))
    sgn = 1 if items[0][1] > 0 else -1
    # sgn*L*g + k >= 0
    L = tuple((x, sgn * c // g) for x, c in items)
    if sgn > 0:
        c = -(k // g)          # L >= ceil(-k/g)
        return mk_ge(L, c)
    else:
        c = k // g             # L <= floor(k/g)
        return bnot(mk_ge(L, c + 1))

def mk_ge(L, c):
    if len(L) == 1 and L[0][1] == 1:
        x = L[0][0]
        if nonneg(x) and c <= 0: return TRUE
        if x[0] == 'sum' and c == 1:
            # a 0/1 (or non negative constant) sum is positive iff some element contributes
            leaves = dt_leaves(x[3])
            if all(l[0] == 'int' and l[1] >= 0 for l in leaves):
                body = push1(lambda l: B(l[1] > 0), x[3])
                return mk_exists_raw(x[1], x[2], body)
        if x[0] == 'app' and x[1] == 'len' and x[2][0][0] == 'coll' and c == 1:
            return nonempty(x[2][0])
    if IDS and len(L) == 2:
        # a position is below the length of its collection
        for i in (0, 1):
            (x, p), (n, q) = L[i], L[1 - i]
            if x[0] == 'app' and IDS.get(x[1]) == n:
                if (q, p) == (1, -1) and c <= 1: return TRUE
                if (q, p) == (-1, 1) and c >= 0: return FALSE
    return atom_dt(('ge', L, c))

def le(a, b): return ge0(sub(b, a))
def lt(a, b): return ge0(add(sub(b, a), I(-1)))

# ---------------------------------------------------------------- decision trees
def vkey(v): return (0, v) if isinstance(v, bool) else (1, v)

def mk_ite(atom, ch):
    """ch: dict value->term; all domain values present"""
    vals = {v: c for v, c in ch.items()}
    defd = [c for c in vals.values() if c != UNDEF]
    if not defd: return UNDEF
    first = defd[0]
    if all(c == first for c in defd): return first
    # undefined leaves are unreachable: any defined sibling may stand for them
    if atom[0] != 'disc':
        if len(defd) == 1: return defd[0]
    if atom[0] == 'ge' and vals[True][0] not in ('bool', 'vn') and vals[False][0] not in ('bool', 'vn'):
        # both sides agree on the boundary: the boundary belongs to the False side
        L, c = atom[1], atom[2]
        x, cx = L[-1]
        if len(L) > 1 and abs(cx) == 1 and x[0] not in ('int', 'lin'):
            rest = I(c)
            for y, cy in L[:-1]: rest = sub(rest, mul(y, I(cy)))
            v = mul(rest, I(cx))
            if not mentions(v, x):
                try:
                    if subst(vals[True], {x: v}) == subst(vals[False], {x: v}): atom = ('ge', L, c + 1)
                except RecursionError: pass
    if atom[0] == 'b' and vals[True][0] in ('adt', 'gens') and vals[False][0] == vals[True][0]:
        m = merge_bool(vals[True], vals[False], atom[1])
        if m is not None: return m
    return ('ite', atom, tuple(sorted(vals.items(), key=lambda x: vkey(x[0]))))

def merge_bool(a, b, t):
    """values that only differ by true / false where the test itself could stand"""
    n = [0]
    def go(a, b):
        if a == b: return a
        if a == TRUE and b == FALSE:
            n[0] += 1
            return t
        if not isinstance(a, tuple) or not isinstance(b, tuple) or len(a) != len(b) or n[0] > 1: raise Unsupported()
        if not a: raise Unsupported()
        if isinstance(a[0], str):
            if a[0] != b[0] or a[0] not in ('adt', 'gens', 'one', 'tup'): raise Unsupported()
            if a[0] == 'adt':
                if a[1:3] != b[1:3]: raise Unsupported()
                return mk_adt(a[1], a[2], tuple(go(x, y) for x, y in zip(a[3], b[3])))
        return tuple(go(x, y) if isinstance(x, tuple) else same(x, y) for x, y in zip(a, b))
    def same(x, y):
        if x != y: raise Unsupported()
        return x
    try:
        r = go(a, b)
    except Unsupported: return None
    return r if n[0] == 1 else None

def atom_dt(a):
    if a[0] == 'b': return a[1]
    return ('ite', a, ((False, FALSE), (True, TRUE)))

def as_dt(t):
    """view a boolean term as a decision tree"""
    if t[0] in ('bool', 'undef', 'ite'): return t
    return ('ite', ('b', t), ((False, FALSE), (True, TRUE)))

def dt_leaves(t):
    if t[0] == 'ite':
        r = []
        for _, c in t[2]: r += dt_leaves(c)
        return r
    return [t] if t != UNDEF else []

def akey(a): return (height(a), rk(a))

def dt_restrict(t, atom, val):
    if t[0] != 'ite':
        if atom[0] == 'b' and t == atom[1] and isinstance(val, bool): return B(val)
        return t
    if t[1] == atom:
        for v, c in t[2]:
            if v == val: return dt_restrict(c, atom, val)
        return UNDEF
    # interval reasoning between thresholds of the same linear form
    if atom[0] == 'ge' and t[1][0] == 'ge' and t[1][1] == atom[1]:
        if val and t[1][2] <= atom[2]: return dt_restrict(dict(t[2])[True], atom, val)
        if not val and t[1][2] >= atom[2]: return dt_restrict(dict(t[2])[False], atom, val)
    return mk_ite(t[1], {v: dt_restrict(c, atom, val) for v, c in t[2]})

def dt_apply(f, *ts):
    """canonical pointwise application over decision trees; f combines leaves"""
    tops = [as_root(t) for t in ts]
    atoms = [t[1] for t in tops if t[0] == 'ite']
    if not atoms: return f(*ts)
    a = min(atoms, key=akey)
    dom = None
    for t in tops:
        if t[0] == 'ite' and t[1] == a: dom = [v for v, _ in t[2]]; break
    return mk_ite(a, {v: dt_apply(f, *[dt_restrict(t, a, v) for t in tops]) for v in dom})

def as_root(t): return t

def bnot(t):
    t = as_dt(t)
    if t[0] == 'bool': return B(not t[1])
    if t == UNDEF: return t
    return mk_ite(t[1], {v: bnot(c) for v, c in t[2]})

def band(a, b):
    a, b = as_dt(a), as_dt(b)
    def f(x, y):
        if x == UNDEF or y == UNDEF: return UNDEF
        return B(x[1] and y[1])
    if a == FALSE or b == FALSE: return FALSE
    if a == TRUE: return norm_bool(b)
    if b == TRUE: return norm_bool(a)
    return dt_apply(f, a, b)

def norm_bool(t):
    if t[0] == 'ite': return mk_ite(t[1], dict(t[2]))
    return t

def bor(a, b): return bnot(band(bnot(a), bnot(b)))

def ite(c, a, b):
    c = as_dt(c)
    if c == TRUE: return a
    if c == FALSE: return b
    def f(x, y, z):
        if x == UNDEF: return UNDEF
        return y if x[1] else z
    return dt_apply(f, c, a, b)

# ---------------------------------------------------------------- equality
def eq(a, b):
    if a == b: return TRUE
    ka, kb = a[0], b[0]
    if ka == 'ite': return push_b(lambda x: eq(x, b), a)
    if kb == 'ite': return push_b(lambda x: eq(a, x), b)
    consts = ('int', 'bool', 'str', 'char')
    if ka in consts and kb in consts: return B(a == b)
    if ka == 'bool': return b if a[1] else bnot(b)
    if kb == 'bool': return a if b[1] else bnot(a)
    if ka in ('int', 'lin') or kb in ('int', 'lin'):
        d = sub(a, b)
        return band(ge0(d), ge0(sub(b, a)))
    if ka == 'tup' and kb == 'tup' and len(a[1]) == len(b[1]):
        r = TRUE
        for x, y in zip(a[1], b[1]): r = band(r, eq(x, y))
        return r
    if ka == 'adt' and kb == 'adt':
        if a[2] != b[2]: return FALSE
        r = TRUE
        for x, y in zip(a[3], b[3]): r = band(r, eq(x, y))
        return r
    if kb == 'adt': a, b, ka, kb = b, a, kb, ka
    if ka == 'adt' and DOMS.get(a[1]):
        if len(DOMS[a[1]]) > 1:
            r = isvar(b, a[1], a[2])
        else:
            r = TRUE
        for i, x in enumerate(a[3]):
            r = band(r, eq(x, fld(b, a[1], a[2], i)))
        return r
    if ka == 'coll' and kb == 'coll' and a[1] == b[1] == 'seq' and \
            all(g[0] == 'one' for g in a[2]) and all(g[0] == 'one' for g in b[2]):
        if len(a[2]) != len(b[2]): return FALSE
        r = TRUE
        for x, y in zip(a[2], b[2]): r = band(r, eq(x[1], y[1]))
        return r
    if ka == 'coll' and not a[2]: return bnot(nonempty(b))
    if kb == 'coll' and not b[2]: return bnot(nonempty(a))
    x, y = sorted((a, b), key=rk)
    return app('eq', x, y)

def push_b(f, t):
    if t[0] == 'ite': return bdd_ite(t[1], {v: push_b(f, c) for v, c in t[2]})
    if t == UNDEF: return t
    return f(t)

def bdd_ite(atom, ch):
    """re-order: build ite over atom with boolean tree children that may mention smaller atoms"""
    res = None
    items = list(ch.items())
    # sum over values of (atom==v and child)
    acc = FALSE
    for v, c in items:
        test = ('ite', atom, tuple(sorted(((w, B(w == v)) for w, _ in items), key=lambda x: vkey(x[0]))))
        acc = bor(acc, band(test, c))
    return acc

# ---------------------------------------------------------------- adts
DOMS = {}      # adt path -> tuple of variant names   (filled from the program facts)
NFIELDS = {}   # (adt path, variant) -> number of fields

OPTION = 'std::option::Option'
def none(): return ('adt', OPTION, 'None', ())
def some(x): return ('adt', OPTION, 'Some', (x,))

def mk_adt(path, variant, fields):
    fields = tuple(fields)
    # eta: V{ b.0, b.1, .. } == b  (the projections are only defined when b is a V)
    if fields:
        f0 = fields[0]
        if f0[0] == 'fld' and f0[2] == path:
            b = f0[1]
            if all(f == ('fld', b, path, variant, i) for i, f in enumerate(fields)): return b
    return ('adt', path, variant, fields)

def fld(b, path, variant, i):
    if b[0] == 'ite': return push1(lambda x: fld(x, path, variant, i), b)
    if b[0] == 'adt':
        if b[2] == variant or len(DOMS.get(path, ())) <= 1:
            return b[3][i] if i < len(b[3]) else UNDEF
        return UNDEF
    if b[0] == 'tup': return b[1][i]
    if b[0] == 'clo': return b[2][i]
    if b == UNDEF: return UNDEF
    if b[0] == 'app' and path == OPTION and variant == 'Some':
        if b[1] == 'get': return index(b[2][0], b[2][1])
        if b[1] == 'firstopt': return app('index', b[2][0], I(0))
        if b[1] == 'lastopt': return app('last', b[2][0])
        if b[1] == 'findopt': return b[2][0]
    return ('fld', b, path, variant, i)

def tfld(b, i):
    if b[0] == 'ite': return push1(lambda x: tfld(x, i), b)
    if b[0] == 'tup': return b[1][i]
    if b[0] == 'clo': return b[2][i]
    if b[0] == 'adt': return b[3][i]
    if b == UNDEF: return UNDEF
    return ('fld', b, 'tuple', None, i)

def disc_atom(t, path):
    """returns a decision tree with leaves ('vn', name) for the variant of t"""
    if t[0] == 'adt': return ('vn', t[2])
    if t[0] == 'ite': return mk_ite(t[1], {v: disc_atom(c, path) for v, c in t[2]})
    if t == UNDEF: return UNDEF
    dom = DOMS.get(path)
    if t[0] == 'app' and path == OPTION:
        c = None
        if t[1] == 'get': c = lt(t[2][1], length(t[2][0]))
        elif t[1] in ('firstopt', 'lastopt', 'itmin', 'itmax'): c = nonempty(t[2][0])
        elif t[1] == 'findopt': c = t[2][1]
        if c is not None: return ite(c, ('vn', 'Some'), ('vn', 'None'))
    if dom is None: return None
    if len(dom) == 1: return ('vn', dom[0])
    return ('ite', ('disc', t, path), tuple((v, ('vn', v)) for v in sorted(dom)))

def isvar(t, path, variant):
    d = disc_atom(t, path)
    return push_leaf(lambda l: B(l[1] == variant), d)

def push_leaf(f, t):
    if t[0] == 'ite': return mk_ite(t[1], {v: push_leaf(f, c) for v, c in t[2]})
    if t == UNDEF: return t
    return f(t)

def domain(atom):
    if atom[0] == 'disc': return frozenset(DOMS[atom[2]])
    if atom[0] == 'cmp': return frozenset(('Less', 'Equal', 'Greater'))
    return frozenset((True, False))

# ---------------------------------------------------------------- collections
def coll(kind, gens):
    out = []
    for g in gens:
        if g[0] == 'spread':
            out += list(gens_of(g[1], kind))
        else: out.append(g)
    if kind == 'set':
        seen = {}
        for g in out: seen[g] = 1
        out = sorted(seen, key=rk)
    if len(out) == 1 and out[0][0] == 'spread' and not (kind == 'set' and seqish(out[0][1])): return out[0][1]
    if not out: return EMPTY
    if len(out) == 1 and out[0][0] == 'for' and out[0][3] == ('gens', (('one', ('idx', ('bv', out[0][1]))),)):
        # the positions of a list
        return app('range', I(0), length(out[0][2]))
    return ('coll', kind, tuple(out))

SEQAPPS = {'sorted', 'removeat', 'rev', 'init', 'dedup', 'sortedby', 'subslice'}
def seqish(t):
    """certainly a list, which may repeat elements"""
    return t[0] == 'app' and t[1] in SEQAPPS and not (t[1] in ('sorted', 'rev', 'sortedby') and not seqish(t[2][0]))

EMPTY = ('coll', 'seq', ())
def gens_of(t, kind):
    if t[0] == 'coll':
        if t[1] == kind or kind == 'set': return t[2]
        if len(t[2]) <= 1: return t[2]
    if t[0] == 'str' and kind == 'seq':
        if t[1] == '': return ()
    return (('spread', t),)

def empty(kind): return EMPTY
def single(kind, x): return ('coll', kind, (('one', x),))
def push(kind, c, x): return merge_str(coll(kind, gens_of(c, kind) + (('one', x),)))
def concat(kind, a, b): return merge_str(coll(kind, gens_of(a, kind) + gens_of(b, kind)))

def merge_str(c):
    """join adjacent literal pieces of a string sequence"""
    if c[0] != 'coll' or c[1] != 'seq': return c
    out = []
    for g in c[2]:
        lit = None
        if g[0] == 'spread' and g[1][0] == 'str': lit = g[1][1]
        elif g[0] == 'one' and g[1][0] == 'char': lit = g[1][1]
        if lit is not None and out and out[-1][0] == 'spread' and out[-1][1][0] == 'str':
            out[-1] = ('spread', ('str', out[-1][1][1] + lit))
        elif lit is not None:
            out.append(('spread', ('str', lit)))
        else: out.append(g)
    if len(out) == 1 and out[0][0] == 'spread': return out[0][1]
    return ('coll', 'seq', tuple(out))

def close(binder, *ts):
    """replace the bound symbol by ('bv',h)"""
    h = max([height(t) for t in ts] + [0])
    bv = ('bv', h)
    return h, tuple(subst(t, {binder: bv}) for t in ts)

def open_(h, t, val):
    return subst(t, {('bv', h): val})

_uid = [0]
def fresh(p='b', ty=''):
    _uid[0] += 1
    return ('sym', '%s#%d' % (p, _uid[0]), ty)

LENEQ = {}      # assumed equal lengths: len(other) -> len(representative)

def same_length(v):
    """the representative of the collections assumed to be as long as v, if there is another"""
    r = LENEQ.get(('app', 'len', (v,)))
    return r[2][0] if r is not None else None

def nsrc(binder, src, rng=None, body=None):
    """normal form of an iteration: (binder', source', what the former element is) or None"""
    if (rng or LENEQ or body is not None) and src[0] == 'app' and src[1] == 'range' and src[2][0] == I(0):
        hi = src[2][1]
        if hi[0] == 'app' and hi[1] == 'len':
            e = fresh()
            if not (rng or LENEQ):
                # only when the positions serve to get the elements
                at = ('app', 'index', (hi[2][0], binder))
                if not mentions(body, at) or mentions(subst(body, {at: e}), binder): return None
            return e, hi[2][0], {binder: ('idx', e)}
    r = same_length(src)
    if r is not None:
        e = fresh()
        return e, r, {('idx', binder): ('idx', e), binder: ('app', 'index', (src, ('idx', e)))}
    if src[0] == 'app' and src[1] == 'zip' and length(src[2][0]) == length(src[2][1]):
        a, b = src[2]
        (sa, fa), (sb, fb) = image_of(a), image_of(b)
        if sa == sb:
            e = fresh()
            return e, sa, {('idx', binder): ('idx', e), binder: tup(fa(e), fb(e))}
        if same_length(b) == a: pass
        elif same_length(a) == b: 
            e = fresh()
            return e, b, {('idx', binder): ('idx', e), binder: tup(('app', 'index', (a, ('idx', e))), e)}
        e = fresh()
        return e, a, {('idx', binder): ('idx', e), binder: tup(e, ('app', 'index', (b, ('idx', e))))}
    return None

def image_of(c):
    """(the list c is the image of, element by element; what the element at the position of e is)"""
    if c[0] == 'coll' and c[1] == 'seq' and len(c[2]) == 1 and c[2][0][0] == 'for':
        g = c[2][0]
        if all(l == UNDEF or l[0] == 'gens' and len(l[1]) == 1 and l[1][0][0] == 'one' for l in dt_leaves(g[3])):
            return g[2], lambda e: push1(lambda l: UNDEF if l == UNDEF else l[1][0][1], open_(g[1], g[3], e))
    return c, lambda e: e

def one_to_one(binder, src):
    """iterating over the image of a list, element by element"""
    if src[0] == 'coll' and src[1] == 'seq' and len(src[2]) == 1 and src[2][0][0] == 'for':
        g = src[2][0]
        e = fresh()
        b = open_(g[1], g[3], e)
        if b[0] == 'gens' and len(b[1]) == 1 and b[1][0][0] == 'one': return e, g[2], {('idx', binder): ('idx', e), binder: b[1][0][1]}
    return None

IDS = {}   # functions whose result is a set of positions of the collection of that length (a data invariant)
def valid_ids(binder, src, body):
    if not (src[0] == 'app' and src[1] in IDS): return body
    n = IDS[src[1]]
    for a in atoms_of(body):
        if a[0] == 'ge' and set(dict(a[1])) == {n, binder}:
            L = dict(a[1])
            if (L[n], L[binder]) == (1, -1) and a[2] <= 1: body = dt_restrict(body, a, True)
            elif (L[n], L[binder]) == (-1, 1) and a[2] >= 0: body = dt_restrict(body, a, False)
    return body

def in_range(a, p, src):
    """the position of an element is below the length of its collection"""
    if a[0] != 'ge': return None
    L = dict(a[1])
    n = length(src)
    if n[0] != 'app': return None
    if set(L) != {n, p}: return None
    if (L[n], L[p]) == (1, -1) and a[2] <= 1: return True
    if (L[n], L[p]) == (-1, 1) and a[2] >= 0: return False
    return None

def posn(binder, src, body):
    """use of the iteration position: s[position] is the element; equal positions are the same element"""
    p = ('idx', binder)
    if not mentions(body, p): return body
    body = subst(body, {('app', 'index', (src, p)): binder})
    if not mentions(body, p): return body
    memo = {}
    def go(t):
        if not isinstance(t, tuple): return t
        r = memo.get(t)
        if r is not None: return r
        if t and t[0] == 'ite':
            v = in_range(t[1], p, src)
            if v is not None:
                r = go(dict(t[2])[v])
                memo[t] = r
                return r
        if t and t[0] == 'exists' and t[2] == src:
            y = fresh()
            b = open_(t[1], t[3], y)
            c = eq_pos(y, binder, as_dt(b))
            if c is not None:
                r = go(subst(c, {y: binder}))
                memo[t] = r
                return r
        r = rebuild(t, go) if mentions(t, p) else t
        memo[t] = r
        return r
    return go(body)

def eq_pos(y, x, b):
    """b == (position of y == position of x) && rest ?  returns rest"""
    if b[0] != 'ite': return None
    a, d = b[1], dict(b[2])
    if d.get(False) != FALSE or True not in d: 
        return None
    if a[0] == 'b' and a[1][0] == 'app' and a[1][1] == 'eq' and set(a[1][2]) == {('idx', y), ('idx', x)}: return d[True]
    r = eq_pos(y, x, as_dt(d[True]))
    return None if r is None else mk_ite(a, {True: r, False: FALSE})

def atoms_of(t, acc=None):
    if acc is None: acc = []
    if t[0] == 'ite':
        if t[1] not in acc: acc.append(t[1])
        for _, c in t[2]: atoms_of(c, acc)
    return acc

def mk_for(binder, src, body):
    """generators  for binder in src: body   (body: decision tree with ('gens',..) leaves)"""
    n = nsrc(binder, src)
    if n: return mk_for(n[0], n[1], subst(body, n[2]))
    body = posn(binder, src, body)
    if src[0] == 'coll': 
        out = []
        if src[1] == 'set' and len(src[2]) > 1:
            pass
        else:
            r = flatmap_gens(binder, src[2], body)
            if r is not None: return r
    if body == ('gens', ()): return ()
    if body == ('gens', (('one', binder),)): return (('spread', src),)
    if body[0] == 'ite':
        p = all_but_one(binder, body)
        if p is not None: return (('spread', removeat(src, p)),)
    h, (b2,) = close(binder, body)
    # for x in S: spread(f(x)) stays
    return (('for', h, src, b2),)

def all_but_one(binder, body):
    """every element but the one at a position: that position"""
    pos = ('idx', binder); one = ('gens', (('one', binder),)); no = ('gens', ())
    a = body[1]
    if a[0] == 'b' and a[1][0] == 'app' and a[1][1] == 'eq' and pos in a[1][2]:
        q = a[1][2][1] if a[1][2][0] == pos else a[1][2][0]
        return q if dict(body[2]) == {True: no, False: one} and not mentions(q, binder) else None
    cut = []
    def go(b, lo, hi):
        if b == no: cut.append((lo, hi)); return True
        if b == one: return True
        if b[0] != 'ite' or b[1][0] != 'ge' or b[1][1] != ((pos, 1),): return False
        d = dict(b[2]); k = b[1][2]
        return go(d[False], lo, min(hi, k)) and go(d[True], max(lo, k), hi)
    if not go(body, 0, 1 << 60): return None
    cut = [c for c in cut if c[0] < c[1]]
    return I(cut[0][0]) if len(cut) == 1 and cut[0][1] == cut[0][0] + 1 else None

def removeat(c, p):
    """a list without the element at position p (the list itself when there is none)"""
    if c[0] == 'ite': return push1(lambda x: removeat(x, p), c)
    if p[0] == 'ite': return push1(lambda x: removeat(c, x), p)
    return app('removeat', c, p)

def slice_(c, lo, hi):
    """a part of a list: all but the first, all but the last"""
    if c[0] == 'ite': return push1(lambda x: slice_(x, lo, hi), c)
    n = length(c)
    if lo == I(0) and hi == n: return c
    if lo == I(1) and hi == n: return removeat(c, I(0))
    if lo == I(0) and n[0] != 'ite' and hi == add(n, I(-1)): return app('init', c)
    return app('slice', c, lo, hi)

def mapset(m, k, v):
    if m[0] == 'coll' and m[1] == 'map' and m[2] and m[2][-1][0] == 'one':
        e = m[2][-1][1]
        if e[0] == 'tup' and e[1][0] == k: return ('coll', 'map', m[2][:-1] + (('one', tup(k, v)),))
    return app('mapset', m, k, v)

def flatmap_gens(binder, gens, body):
    out = ()
    for g in gens:
        if g[0] == 'one':
            if mentions(body, ('idx', binder)): return None
            b = subst(body, {binder: g[1]})
            if b[0] != 'gens':
                return None
            out += b[1]
        elif g[0] == 'spread':
            if len(gens) > 1 and mentions(body, ('idx', binder)): return None
            if g[1][0] == 'coll' and not (g[1][1] == 'set' and len(g[1][2]) > 1):
                return None
            out += mk_for(binder, g[1], body)
        elif g[0] == 'for':
            if mentions(body, ('idx', binder)): return None
            x = fresh()
            inner = open_(g[1], g[3], x)
            def leaf(l):
                if l == UNDEF: return l
                r = flatmap_dt(binder, l[1], body)
                if r is None: raise Unsupported()
                return r
            try:
                nb = dt_bind(leaf, inner)
            except Unsupported:
                return None
            out += mk_for(x, g[2], nb)
    return out

class Unsupported(Exception): pass

def flatmap_dt(binder, gens, body):
    """decision tree of gens for iterating `body` over a tuple of generators"""
    acc = ('gens', ())
    for g in gens:
        if g[0] == 'one':
            b = subst(body, {binder: g[1]})
        else:
            r = flatmap_gens(binder, (g,), body)
            if r is None: return None
            b = ('gens', r)
        acc = dt_apply(lambda x, y: UNDEF if UNDEF in (x, y) else ('gens', x[1] + y[1]), acc, b)
    return acc

def dt_bind(f, t):
    """replace each leaf l by tree f(l), keeping canonical atom order"""
    if t[0] == 'ite':
        kids = {v: dt_bind(f, c) for v, c in t[2]}
        return dt_select(t[1], kids)
    return f(t)

def dt_select(atom, kids):
    """tree that on atom==v behaves as kids[v]; re-sorted"""
    roots = [k[1] for k in kids.values() if k[0] == 'ite']
    if not roots or akey(min(roots, key=akey)) > akey(atom):
        return mk_ite(atom, kids)
    a = min(roots + [atom], key=akey)
    if a == atom:
        return mk_ite(atom, {v: dt_restrict(k, atom, v) for v, k in kids.items()})
    dom = sorted(domain(a), key=vkey)
    return mk_ite(a, {w: dt_select(atom, {v: dt_restrict(k, a, w) for v, k in kids.items()}) for w in dom})

def mk_exists(binder, src, body):
    """boolean: some element of src satisfies body (boolean decision tree over binder)"""
    body = as_dt(body)
    if body == FALSE or body == UNDEF: return FALSE
    n = nsrc(binder, src, body=body)
    if n: return mk_exists(n[0], n[1], subst(body, n[2]))
    if src[0] == 'coll':
        r = FALSE
        ok = True
        for g in src[2]:
            if mentions(body, ('idx', binder)) and len(src[2]) > 1: ok = False; break
            if g[0] == 'one':
                if mentions(body, ('idx', binder)): ok = False; break
                r = bor(r, subst(body, {binder: g[1]}))
            elif g[0] == 'spread': r = bor(r, mk_exists(binder, g[1], body))
            else:
                if mentions(body, ('idx', binder)): ok = False; break
                x = fresh()
                inner = open_(g[1], g[3], x)
                def leaf(l):
                    if l == UNDEF: return l
                    return as_dt(mk_exists(binder, ('coll', 'seq', l[1]), body))
                r = bor(r, mk_exists(x, g[2], dt_bind(leaf, inner)))
        if ok: return r
    body = valid_ids(binder, src, posn(binder, src, body))
    if body in (FALSE, UNDEF): return FALSE
    if not mentions(body, binder):
        return band(body, nonempty(src))
    # what does not depend on the element is decided outside
    inv = [a for a in atoms_of(body) if not mentions(a, binder)]
    if inv:
        a = min(inv, key=akey)
        return bdd_ite(a, {v: as_dt(mk_exists(binder, src, dt_restrict(body, a, v))) for v in sorted(domain(a), key=vkey)})
    if src[0] == 'app' and src[1] == 'rev' and not mentions(body, ('idx', binder)): src = src[2][0]
    # a disjunction is distributed
    parts = split_or(body)
    if parts is not None:
        r = FALSE
        for p in parts: r = bor(r, as_dt(mk_exists(binder, src, p)))
        return r
    # exists x in S: x == c && rest  -> contains
    c = exists_eq(binder, body)
    if c is not None:
        val, rest = c
        return band(contains(src, val), subst(rest, {binder: val}))
    # exists x in S: position of x == c && rest  -> the element at c
    c = exists_eq(binder, body, ('idx', binder)) if mentions(body, ('idx', binder)) else None
    if c is not None:
        val, rest = c
        e = app('index', src, val)
        return band(lt(val, length(src)), as_dt(subst(subst(rest, {('idx', binder): val}), {binder: e})))
    # exists x in A: x in B  is symmetric
    if body[0] == 'ite' and body[1][0] == 'b' and body[1][1][0] == 'app' and body[1][1][1] == 'contains' \
            and body[1][1][2][1] == binder and not mentions(body[1][1][2][0], binder) \
            and dict(body[2]) == {True: TRUE, False: FALSE}:
        x, y = sorted((src, body[1][1][2][0]), key=rk)
        return app('meets', x, y)
    h, (b2,) = close(binder, body)
    return mk_exists_raw(h, src, b2)

def split_or(body):
    """literals that suffice on their own, and what remains without them"""
    if body[0] != 'ite': return None
    lits = []
    for a in sorted(set(atoms_of(body)), key=akey):
        dom = domain(a)
        vs = [v for v in dom if dt_restrict(body, a, v) == TRUE]
        if vs and len(vs) < len(dom): lits.append((a, vs))
    if not lits: return None
    rest = body
    for a, vs in lits:
        left = [v for v in domain(a) if v not in vs]
        if rest[0] != 'ite': break
        if len(left) == 1: rest = dt_restrict(rest, a, left[0])
        else: rest = bdd_ite(a, {v: FALSE if v in vs else dt_restrict(rest, a, v) for v in domain(a)})
    if rest == UNDEF: rest = FALSE
    if len(lits) == 1 and rest == FALSE: return None
    if rest == body: return None
    return [bdd_ite(a, {v: B(v in vs) for v in domain(a)}) for a, vs in lits] + ([] if rest == FALSE else [rest])

def mk_exists_raw(h, src, body):
    if body == FALSE: return FALSE
    if body == TRUE: return nonempty(src)
    return ('exists', h, src, norm_bool(body))

def exists_eq(binder, body, what=None):
    """body == (binder == val) && rest ?"""
    what = binder if what is None else what
    if body[0] != 'ite': return None
    for a in sorted(set(atoms_of(body)), key=akey):
        if a[0] != 'b' or a[1][0] != 'app' or a[1][1] != 'eq': continue
        x, y = a[1][2]
        for p, q in ((x, y), (y, x)):
            if p == what and not mentions(q, binder) and dt_restrict(body, a, False) == FALSE:
                return q, dt_restrict(body, a, True)
    return None

def nonempty(c):
    if c[0] == 'ite': return push_b(nonempty, c)
    if c[0] == 'coll':
        r = FALSE
        for g in c[2]:
            if g[0] == 'one': return TRUE
            if g[0] == 'spread': r = bor(r, nonempty(g[1]))
            else:
                x = fresh()
                inner = open_(g[1], g[3], x)
                def leaf(l):
                    if l == UNDEF: return l
                    return as_dt(nonempty(('coll', 'seq', l[1])))
                r = bor(r, mk_exists(x, g[2], dt_bind(leaf, inner)))
        return r
    if c[0] == 'str': return B(c[1] != '')
    if c[0] == 'app' and c[1] in ('rev', 'sorted', 'dedup', 'shuffled'): return nonempty(c[2][0])
    if c[0] == 'app' and c[1] == 'range': return lt(c[2][0], c[2][1])
    return ge0(add(length(c), I(-1)))

def length(c):
    if c[0] == 'ite': return push1(length, c)
    if c[0] == 'coll':
        if c[1] == 'set' and len(c[2]) > 1: return app('len', c)
        r = I(0)
        for g in c[2]:
            if g[0] == 'one': r = add(r, I(1))
            elif g[0] == 'spread' and c[1] == 'set' and seqish(g[1]): return app('len', c)
            elif g[0] == 'spread': r = add(r, length(g[1]))
            elif c[1] == 'set': return app('len', c)
            else:
                body = push1(lambda l: UNDEF if l == UNDEF else length(('coll', 'seq', l[1])), g[3])
                r = add(r, mk_sum_raw(g[1], g[2], body))
        return r
    if c[0] == 'str': return I(len(c[1]))
    if c[0] == 'app' and c[1] in ('rev', 'sorted', 'shuffled'): return length(c[2][0])
    if c[0] == 'app' and c[1] == 'removeat':
        n = length(c[2][0])
        return push1(lambda l: add(n, I(-1)) if l == B(True) else n, as_dt(lt(c[2][1], n)))
    if c[0] == 'app' and c[1] == 'slice' and c[2][2] == length(c[2][0]):
        return push1(lambda l: add(c[2][2], c[2][1], -1) if l == B(True) else I(0), as_dt(lt(c[2][1], c[2][2])))
    r = app('len', c)
    return LENEQ.get(r, r)

def mk_sum(binder, src, body):
    n = nsrc(binder, src, body=body)
    if n: return mk_sum(n[0], n[1], subst(body, n[2]))
    body = posn(binder, src, body)
    if src[0] == 'coll' and not (src[1] == 'set' and len(src[2]) > 1) and not mentions(body, ('idx', binder)):
        r = I(0)
        for g in src[2]:
            if g[0] == 'one': r = add(r, subst(body, {binder: g[1]}))
            elif g[0] == 'spread': r = add(r, mk_sum(binder, g[1], body))
            else:
                x = fresh()
                inner = open_(g[1], g[3], x)
                def leaf(l):
                    if l == UNDEF: return l
                    return mk_sum(binder, ('coll', 'seq', l[1]), body)
                r = add(r, mk_sum(x, g[2], dt_bind(leaf, inner)))
        return r
    h, (b2,) = close(binder, body)
    return mk_sum_raw(h, src, b2)

def mk_sum_raw(h, src, body):
    if body == I(0): return I(0)
    if body[0] == 'int': return mul(body, length(src))
    if src[0] == 'app' and src[1] in ('rev', 'sorted') and not mentions(body, ('idx', ('bv', h))): src = src[2][0]
    return ('sum', h, src, body)

def contains(c, x):
    if c[0] == 'ite': return push_b(lambda y: contains(y, x), c)
    if c[0] == 'coll':
        r = FALSE
        for g in c[2]:
            if g[0] == 'one': r = bor(r, eq(g[1], x))
            elif g[0] == 'spread': r = bor(r, contains(g[1], x))
            else:
                y = fresh()
                inner = open_(g[1], g[3], y)
                def leaf(l):
                    if l == UNDEF: return l
                    return as_dt(contains(('coll', 'set', l[1]), x))
                r = bor(r, mk_exists(y, g[2], dt_bind(leaf, inner)))
        return r
    if c[0] == 'app' and c[1] in ('rev', 'sorted', 'dedup', 'shuffled'): return contains(c[2][0], x)
    if c[0] == 'app' and c[1] == 'range': return band(le(c[2][0], x), lt(x, c[2][1]))
    return app('contains', c, x)

def disjoint(a, b):
    x = fresh()
    return bnot(mk_exists(x, a, contains(b, x)))

def filter_(kind, c, pred):
    x = fresh()
    body = push1(lambda l: UNDEF if l == UNDEF else (('gens', (('one', x),)) if l[1] else ('gens', ())), as_dt(pred(x)))
    return set_norm(coll(kind, mk_for_over(x, c, kind, body)))

def map_(kind, c, f):
    x = fresh()
    body = push1(lambda l: UNDEF if l == UNDEF else ('gens', (('one', l),)), f(x))
    return coll(kind, mk_for_over(x, c, kind, body))

def mk_for_over(binder, c, kind, body):
    """iterate over collection term c to fill a collection of `kind`"""
    n = nsrc(binder, c, True)
    if n: return mk_for_over(n[0], n[1], kind, subst(body, n[2]))
    if c[0] == 'coll' and (kind == 'set' or c[1] != 'set' or len(c[2]) <= 1):
        r = flatmap_gens(binder, c[2], body)
        if r is not None: return r
    if c[0] == 'coll':
        h, (b2,) = close(binder, body)
        if body == ('gens', ()): return ()
        return (('for', h, c, b2),)
    if c[0] == 'app' and c[1] in ('rev', 'sorted') and kind == 'set' and not mentions(body, ('idx', binder)):
        return mk_for_over(binder, c[2][0], kind, body)
    return mk_for(binder, c, body)

def nest_norm(g):
    """for x in A: if c: for y in B: body  ->  conditions innermost, independent sources in canonical order"""
    x = fresh()
    b = open_(g[1], g[3], x)
    leaves = [l for l in dt_leaves(b) if l[1]]
    if not leaves or any(len(l[1]) != 1 or l[1][0][0] != 'for' for l in leaves): return g
    srcs = {l[1][0][2] for l in leaves}
    if len(srcs) != 1: return g
    src2 = srcs.pop()
    y = fresh()
    nb = dt_bind(lambda l: UNDEF if l == UNDEF else (open_(l[1][0][1], l[1][0][3], y) if l[1] else l), b)
    if mentions(nb, ('idx', x)) or mentions(nb, ('idx', y)): pass
    if not mentions(src2, x) and rk(src2) < rk(g[2]):
        inner = mk_for(x, g[2], nb)
        r = mk_for(y, src2, ('gens', inner))
    else:
        inner = mk_for(y, src2, nb)
        r = mk_for(x, g[2], ('gens', inner))
    return r[0] if len(r) == 1 else g

def set_norm(c):
    """intersections are symmetric"""
    if c[0] == 'coll' and c[1] == 'set':
        out = []
        for g in c[2]:
            if g[0] == 'for': g = nest_norm(g)
            if g[0] == 'for':
                x = fresh()
                b = open_(g[1], g[3], x)
                if b[0] == 'ite' and b[1][0] == 'b' and b[1][1][0] == 'app' and b[1][1][1] == 'contains' and b[1][1][2][1] == x \
                        and dict(b[2]) == {True: ('gens', (('one', x),)), False: ('gens', ())} and not mentions(b[1][1][2][0], x):
                    p, q = sorted((g[2], b[1][1][2][0]), key=rk)
                    body = mk_ite(('b', app('contains', q, x)), {True: ('gens', (('one', x),)), False: ('gens', ())})
                    out += mk_for(x, p, body)
                    continue
            out.append(g)
        return coll('set', out)
    return c

def index(c, i):
    if c[0] == 'ite': return push1(lambda x: index(x, i), c)
    if i[0] == 'idx' : 
        # element of the collection the binder ranges over is only known to the loop analysis
        if i[1][0] == 'first' and i[1][2] == c: return i[1]
    if c[0] == 'coll' and c[1] == 'seq' and i[0] == 'int':
        if all(g[0] == 'one' for g in c[2][:i[1] + 1]) and i[1] < len(c[2]): return c[2][i[1]][1]
        g = c[2][0] if len(c[2]) == 1 else None
        if g and g[0] == 'for' and all(l[0] == 'gens' and len(l[1]) == 1 and l[1][0][0] == 'one' for l in dt_leaves(g[3])):
            # element of a list mapped one to one
            x = fresh()
            b = push1(lambda l: l[1][0][1], open_(g[1], g[3], x))
            if not mentions(b, ('idx', x)): return subst(b, {x: index(g[2], i)})
    if c[0] == 'app' and c[1] == 'removeat' and i[0] == 'int' and c[2][1][0] == 'int':
        return index(c[2][0], i if i[1] < c[2][1][1] else I(i[1] + 1))
    return app('index', c, i)

# ---------------------------------------------------------------- substitution / renormalisation
def subst(t, m, memo=None):
    if memo is None: memo = {}
    return _subst(t, m, memo)

def _subst(t, m, memo):
    if not isinstance(t, tuple): return t
    if t in m: return m[t]
    r = memo.get(t)
    if r is not None: return r
    r = rebuild(t, lambda c: _subst(c, m, memo))
    memo[t] = r
    return r

LEAF = {'int', 'bool', 'str', 'char', 'sym', 'bv', 'undef', 'vn', 'float', 'static', 'fn', 'top', 'lv', 'lvit', 'ref', 'bytes'}

def rebuild(t, f):
    """rebuild t with children mapped by f, through the canonical constructors"""
    if not t or not isinstance(t[0], str):
        return tuple(f(c) if isinstance(c, tuple) else c for c in t)
    k = t[0]
    if k in LEAF: return t
    if k == 'tup': return ('tup', tuple(f(c) for c in t[1]))
    if k == 'adt': return mk_adt(t[1], t[2], tuple(f(c) for c in t[3]))
    if k == 'clo': return ('clo', t[1], tuple(f(c) for c in t[2]))
    if k == 'fld':
        b = f(t[1])
        if b == t[1]: return t
        if t[2] == 'tuple': return tfld(b, t[4])
        return fld(b, t[2], t[3], t[4])
    if k == 'lin':
        acc = I(t[2])
        for x, c in t[1]: acc = add(acc, mul(f(x), I(c)))
        return acc
    if k == 'idx':
        x = f(t[1])
        # the position of the element at a position
        if x[0] == 'app' and x[1] == 'index' and x[2][1][0] == 'idx' and LENEQ: return x[2][1]
        return ('idx', x)
    if k == 'gens': return ('gens', tuple(g for x in t[1] for g in regen(x, f)))
    if k in ('one', 'spread', 'for'):
        r = regen(t, f)
        return r[0] if len(r) == 1 else ('spread', coll('seq', r))
    if k == 'coll':
        out = []
        for g in t[2]: out += regen(g, f, t[1])
        return set_norm(coll(t[1], out)) if t[1] == 'set' else merge_str(coll(t[1], out))
    if k == 'exists':
        x = fresh()
        return mk_exists(x, f(t[2]), f_open(t[1], t[3], x, f))
    if k == 'sum':
        x = fresh()
        return mk_sum(x, f(t[2]), f_open(t[1], t[3], x, f))
    if k == 'fold':
        x = fresh()
        return mk_fold(x, f(t[2]), f(t[3]), f_open(t[1], t[4], x, f))
    if k == 'first':
        x = fresh()
        return mk_first(x, f(t[2]), f_open(t[1], t[3], x, f))
    if k == 'ite':
        a = reatom(t[1], f)
        kids = {v: f(c) for v, c in t[2]}
        return apply_test(a, kids)
    if k == 'app': return mk_app(t[1], tuple(f(c) for c in t[2]))
    return tuple(f(c) if isinstance(c, tuple) else c for c in t)

def f_open(h, body, x, f):
    return f(subst(body, {('bv', h): x}))

def regen(g, f, kind='seq'):
    if g[0] == 'one': return (('one', f(g[1])),)
    if g[0] == 'spread': return gens_of(f(g[1]), kind)
    if g[0] == 'for':
        x = fresh()
        return mk_for_over(x, f(g[2]), kind, f_open(g[1], g[3], x, f))
    raise ValueError(g)

def reatom(a, f):
    """a boolean/variant term for the atom after mapping"""
    if a[0] == 'b': return f(a[1])
    if a[0] == 'ge':
        acc = I(-a[2])
        for x, c in a[1]: acc = add(acc, mul(f(x), I(c)))
        return ge0(acc)
    if a[0] == 'disc': return disc_atom(f(a[1]), a[2])
    if a[0] == 'cmp': return cmp_(f(a[1]), f(a[2]))
    raise ValueError(a)

def cmp_(a, b):
    """tree with ('vn', Less|Equal|Greater) leaves"""
    if a == b: return ('vn', 'Equal')
    if is_int(a) or is_int(b):
        return ite(lt(a, b), ('vn', 'Less'), ite(lt(b, a), ('vn', 'Greater'), ('vn', 'Equal')))
    if rk(a) <= rk(b):
        return ('ite', ('cmp', a, b), tuple((v, ('vn', v)) for v in ('Equal', 'Greater', 'Less')))
    fl = {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}
    return ('ite', ('cmp', b, a), tuple((v, ('vn', fl[v])) for v in ('Equal', 'Greater', 'Less')))

def is_int(t): return t[0] in ('int', 'lin') or (t[0] == 'app' and t[1] == 'len')

def apply_test(test, kids):
    test = as_dt(test) if test[0] not in ('vn',) else test
    if test == UNDEF:
        # a question about the contents of another variant: the answer must not matter
        vs = {c for c in kids.values() if c != UNDEF}
        return vs.pop() if len(vs) == 1 else UNDEF
    def sel(l):
        if l == UNDEF: return UNDEF
        v = l[1]
        return kids.get(v, UNDEF)
    return dt_bind(sel, test)

REAPP = {}
def mk_app(f, args):
    args = tuple(unb(a) for a in args)
    r = REAPP.get(f)
    if r: return r(*args)
    return ('app', f, args)

def unb(a):
    """a boolean argument that is a single fact is that fact"""
    if a[0] == 'ite' and a[1][0] == 'b' and a[2] == ((False, FALSE), (True, TRUE)): return a[1][1]
    return a

def collapse(t, memo=None):
    if not isinstance(t, tuple): return t
    if memo is None: memo = {}
    r = memo.get(t)
    if r is None:
        r = tuple(collapse(c, memo) for c in t)
        if r and r[0] == 'ite': r = unb(r)
        memo[t] = r
    return r

REAPP.update({
    'eq': eq, 'contains': contains, 'len': length, 'mul': mul, 'index': index, 'removeat': removeat, 'slice': slice_, 'mapset': mapset,
    'meets': lambda a, b: bnot(disjoint(a, b)),
})

def mk_first(binder, src, body):
    """the first element of src satisfying body"""
    body = as_dt(body)
    n = nsrc(binder, src, body=body)
    if n: return subst(n[2][binder], {n[0]: mk_first(n[0], n[1], subst(body, n[2]))})
    if src[0] == 'coll' and src[1] == 'seq' and len(src[2]) == 1 and src[2][0][0] == 'for' and not mentions(body, ('idx', binder)):
        # among the images of the elements that are kept
        g = src[2][0]
        x = fresh()
        b = open_(g[1], g[3], x)
        im = {l[1] for l in dt_leaves(b) if l != UNDEF and l[1]}
        if len(im) == 1 and all(k[0] == 'one' for k in next(iter(im))) and len(next(iter(im))) == 1:
            f = next(iter(im))[0][1]
            kept = push1(lambda l: UNDEF if l == UNDEF else B(bool(l[1])), b)
            return subst(f, {x: mk_first(x, g[2], band(kept, subst(body, {binder: f})))})
    body = posn(binder, src, body)
    if body == TRUE: return index(src, I(0))
    h, (b2,) = close(binder, body)
    return ('first', h, src, b2)

ACC = ('sym', '$acc', '')
def here(binder, src):
    """the terms that denote the position of the iteration"""
    r = [('idx', binder)]
    if src[0] == 'app' and src[1] == 'range' and src[2][0] == I(0): r.append(binder)
    return r

def elementwise(binder, src, init, body):
    """each iteration rewrites at most the element at its own position, from that element only"""
    ls = [l for l in dt_leaves(body) if l != UNDEF]
    for i in here(binder, src):
        if not all(l == ACC or (l[0] == 'app' and l[1] == 'setindex' and l[2][0] == ACC and l[2][1] == i) for l in ls): continue
        if length(src) != length(init): continue
        cur = index(init, i)
        t = push1(lambda l: UNDEF if l == UNDEF else ('gens', (('one', cur if l == ACC else l[2][2]),)), body)
        t = subst(t, {app('index', ACC, i): cur})
        if mentions(t, ACC): continue
        return coll('seq', mk_for_over(binder, src, 'seq', t))
    return None

def mk_fold(binder, src, init, body):
    """fold over src; body is the next accumulator, in terms of ACC and binder"""
    if body == ACC or body == init: return init
    n = nsrc(binder, src, body=body)
    if n: return mk_fold(n[0], n[1], init, subst(body, n[2]))
    body = posn(binder, src, body)
    if src[0] == 'coll' and all(g[0] == 'one' for g in src[2]) and not (src[1] == 'set' and len(src[2]) > 1) and not mentions(body, ('idx', binder)):
        r = init
        for g in src[2]: r = subst(body, {ACC: r, binder: g[1]})
        return r
    leaves = dt_leaves(body)
    adts = [l for l in leaves if l[0] == 'adt' and len(DOMS.get(l[1], (0, 0))) == 1]
    if adts and all(l == ACC or (l[0] == 'adt' and l[1] == adts[0][1]) for l in leaves):
        # a record whose components evolve independently of one another is folded component by component
        ad, vn, n = adts[0][1], adts[0][2], len(adts[0][3])
        out = []
        for i in range(n):
            own = ('sym', '$own', '')
            c = subst(push1(lambda l: UNDEF if l == UNDEF else fld(l, ad, vn, i), body), {('fld', ACC, ad, vn, i): own})
            if mentions(c, ACC): out = None; break
            out.append(mk_fold(binder, src, fld(init, ad, vn, i), subst(c, {own: ACC})))
        if out is not None: return mk_adt(ad, vn, out)
    # appends
    colls = [l for l in leaves if l[0] == 'coll']
    if colls and all(l == ACC or (l[0] == 'coll' and l[1] == colls[0][1] and ('spread', ACC) in l[2] and (l[1] == 'set' or l[2][0] == ('spread', ACC))) for l in leaves):
        kd = colls[0][1]
        g = push1(lambda l: UNDEF if l == UNDEF else ('gens', () if l == ACC else tuple(x for x in l[2] if x != ('spread', ACC))), body)
        if not mentions(g, ACC):
            n = gens_of(init, kd) + mk_for_over(binder, src, kd, g)
            return set_norm(coll('set', n)) if kd == 'set' else merge_str(coll(kd, n))
    if body[0] == 'lin':
        d = sub(body, ACC)
        if not mentions(d, ACC): return add(init, mk_sum(binder, src, d))
    def kept(l):
        return l[0] == 'coll' and len(l[2]) == 1 and l[2][0][0] == 'for' and l[2][0][2] == ACC
    if leaves and any(kept(l) for l in leaves) and all(l in (ACC, UNDEF) or kept(l) for l in leaves) and len({l[1] for l in leaves if kept(l)}) == 1:
        # repeatedly keeping the elements that pass a test of the current element
        y = fresh()
        keep = ('gens', (('one', y),))
        kd = [l[1] for l in leaves if kept(l)][0]
        ok = True
        def drop(l):
            nonlocal ok
            if l == UNDEF: return l
            if l == ACC: return FALSE
            b = open_(l[2][0][1], l[2][0][3], y)
            if not all(x in (keep, ('gens', ())) for x in dt_leaves(b)) or mentions(b, ('idx', y)) or mentions(b, ACC): ok = False; return FALSE
            return push1(lambda l: UNDEF if l == UNDEF else B(l != keep), b)
        dr = push1(drop, body)
        if ok and not mentions(dr, ACC):
            z = fresh()
            gone = lambda e: mk_exists(z, src, subst(dr, {y: e, binder: z, ('idx', binder): ('idx', z)}))
            return filter_(kd, init, lambda e: bnot(gone(e)))
    r = elementwise(binder, src, init, body)
    if r is None: r = bykey(binder, src, init, body)
    if r is not None: return r
    r = grouping(binder, src, init, body)
    if r is not None: return r
    h, (b2,) = close(binder, body)
    return ('fold', h, src, init, b2)

def bykey(binder, src, init, body):
    """each entry of a map rewrites at most the element whose position is its key, from that element only"""
    if src[0] != 'app' or src[1] not in ('groupby', 'groupset'): return None
    k, v = tfld(binder, 0), tfld(binder, 1)
    ls = [l for l in dt_leaves(body) if l != UNDEF]
    if not all(l == ACC or (l[0] == 'app' and l[1] == 'setindex' and l[2][0] == ACC and l[2][1] == k) for l in ls): return None
    z = fresh()
    t = push1(lambda l: UNDEF if l == UNDEF else z if l == ACC else l[2][2], body)
    t = subst(t, {app('index', ACC, k): z})
    t = subst(t, {v: REAPP['mapval'](src, ('idx', z)), k: ('idx', z)})
    if mentions(t, ACC) or mentions(t, binder): return None
    has = as_dt(REAPP['haskey'](src, ('idx', z)))
    t = dt_apply(lambda c, a: UNDEF if UNDEF in (c, a) else ('gens', (('one', a if c[1] else z),)), has, t)
    return coll('seq', mk_for_over(z, init, 'seq', t))

def grouping(binder, src, init, body):
    """a map in which the elements of src are collected under their keys (in their order):
    groupby(pairs key/element); None when the fold is something else"""
    if init[0] != 'coll' or init[2] or body[0] != 'ite': return None
    def put(l):
        if l[0] == 'app' and l[1] == 'mapset' and l[2][0] in (ACC,): return l[2][1], l[2][2]
        if l[0] == 'app' and l[1] == 'mapset' and l[2][0][0] == 'coll' and l[2][0][1] == 'map':
            r = put(l[2][0])
            if r and r[0] == l[2][1]: return l[2][1], l[2][2]
        if l[0] == 'coll' and l[1] == 'map' and len(l[2]) == 2 and l[2][0] == ('spread', ACC) and l[2][1][0] == 'one' and l[2][1][1][0] == 'tup':
            return l[2][1][1][1]
        return None
    keys = set()
    for l in dt_leaves(body):
        if l in (ACC, UNDEF): continue
        r = put(l)
        if r is None: return None
        keys.add(r[0])
    if len(keys) != 1: return None
    k = keys.pop()
    if mentions(k, ACC): return None
    present = ('b', app('haskey', ACC, k))
    def mark(l, there):
        if l in (ACC, UNDEF): return l if l == UNDEF else ('gens', ())
        v = put(l)[1]
        if v[0] != 'coll' or not v[2]: return None
        ones = [g for g in v[2] if g[0] == 'one']
        if len(ones) != 1 or (v[1] == 'seq' and v[2][-1] != ones[0]): return None
        e = ones[0][1]
        if tuple(g for g in v[2] if g != ones[0]) != ((('spread', app('mapval', ACC, k)),) if there else ()) or mentions(e, ACC): return None
        kinds.add(v[1])
        return ('gens', (('one', tup(k, e)),))
    out = []
    kinds = set()
    for there in (False, True):
        b = dt_restrict(body, present, there)
        if any(mark(l, there) is None for l in dt_leaves(b)): return None
        b = push1(lambda l: mark(l, there), b)
        if mentions(b, ACC): return None
        out.append(b)
    if out[0] != out[1] or len(kinds) != 1: return None
    return app('groupby' if 'seq' in kinds else 'groupset', coll('seq', mk_for_over(binder, src, 'seq', out[0])))
