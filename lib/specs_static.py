"""Static measures of models, alphabets, orders."""
import time
from base import *
from contract import Result, record, facts
import engine as E, models
from specs_core import BIN, LS, homo

def reg(C):
    C.IM = C.a('InteractionMetrics', 'core::')
    C.SK = C.a('SymbolKind', 'core::')

def nmax(a, b): return ite(lt(a, b), b, a)

@prop('P07')
def p07(C):
    """statistics"""
    reg(C)
    o = []
    def tot(A, i):
        v = A.var(i, C.INT); f = C.fields(i, v); X = lambda x: C.im_('total_loop_num', x)
        if v in ('Empty', 'Emission', 'Reception'): return I(0)
        if v == 'Loop': return add(X(f[1]), I(1))
        if v == 'And': return PANIC
        return add(X(f[-2]), X(f[-1]))
    def dep(A, i):
        v = A.var(i, C.INT); f = C.fields(i, v); X = lambda x: C.im_('max_nested_loop_depth', x)
        if v in ('Empty', 'Emission', 'Reception'): return I(0)
        if v == 'Loop': return add(X(f[1]), I(1))
        if v == 'And': return PANIC
        return nmax(X(f[-2]), X(f[-1]))
    o.append(C.go('total number of loops', C.need(C.im, 'total_loop_num'), [C.i()], tot))
    o.append(C.go('nested loop depth', C.need(C.im, 'max_nested_loop_depth'), [C.i()], dep))
    for n, inl in (('get_atomic_actions_number', True), ('get_atomic_actions_number_outside_loops', False)):
        def cnt(A, i, n=n, inl=inl):
            v = A.var(i, C.INT); f = C.fields(i, v); X = lambda x: C.im_(n, x)
            if v == 'Empty': return I(0)
            if v == 'Emission': return T.length(C.em_acts(f[0]))
            if v == 'Reception': return T.length(C.rc_acts(f[0]))
            if v == 'Loop': return X(f[1]) if inl else I(0)
            if v == 'And': return PANIC
            return add(X(f[-2]), X(f[-1]))
        o.append(C.go(n.replace('get_', '').replace('_', ' '), C.need(C.im, n), [C.i()], cnt))
    # metrics record, accumulated along the traversal
    ex = C.m('InteractionMetrics', 'extract')
    S = lambda x: C.field(x, C.IM, 'symbols')
    def mk(m, s=None, d=None, l=None, lf=None):
        g = lambda n: C.field(m, C.IM, n)
        return C.struct(C.IM, symbols=s if s is not None else g('symbols'), depth=d if d is not None else g('depth'),
                        max_nested_loop_depth=l if l is not None else g('max_nested_loop_depth'), lifelines=lf if lf is not None else g('lifelines'))
    K = lambda k: mk_adt(C.SK, k, [])
    def bump(s, k): return T.mk_app('mapset', (s, K(k), add(T.mk_app('mapval', (s, K(k))), I(1))))
    m0 = sym('m', C.IM)
    cell = ('p', 'm')
    def extract(A, mref, i, depth, ld):
        m = m0
        v = A.var(i, C.INT); f = C.fields(i, v)
        kk = v if v not in ('Emission', 'Reception', 'Loop') else 'Action' if v != 'Loop' else 'LoopS' if A.var(f[0], C.LK) == 'SStrictSeq' else 'LoopOther'
        # every symbol has an entry from the start
        if not A.b(models.haskey(S(m), K(kk))): return ANY, {}
        if v in ('Empty', 'Emission', 'Reception'):
            n = mk(m, s=bump(S(m), 'Empty' if v == 'Empty' else 'Action'), d=nmax(C.field(m, C.IM, 'depth'), depth), l=nmax(C.field(m, C.IM, 'max_nested_loop_depth'), ld))
            if v != 'Empty':
                lfs = C.em_lfs(f[0]) if v == 'Emission' else C.rc_lfs(f[0])
                n = mk(n, lf=union(C.field(m, C.IM, 'lifelines'), lfs))
            return ANY, {cell: n}
        k = v
        if v == 'Loop': k = 'LoopS' if A.var(f[0], C.LK) == 'SStrictSeq' else 'LoopOther'
        n = mk(m, s=bump(S(m), k))
        X = lambda m, x, l: C.call(ex + '!0', m, x, add(depth, I(1)), l)
        if v == 'Loop': return ANY, {cell: X(n, f[1], add(ld, I(1)))}
        return ANY, {cell: X(X(n, f[-2], ld), f[-1], ld)}
    o.append(C.go('metrics of a term', ex, [('ref', cell, ()), C.i(), sym('depth', 'u32'), sym('loop_depth', 'u32')], extract, mem={cell: m0}, more=[ex]))
    ent = C.m('InteractionMetrics', 'extract_from_interaction')
    kinds = [v['name'] for v in C.P.adts[C.SK]['variants']]
    def entry(A, i):
        n = C.struct(C.IM, symbols=('coll', 'map', tuple(('one', T.tup(K(k), I(0))) for k in kinds)), depth=I(0), max_nested_loop_depth=I(0), lifelines=EMPTY)
        return C.call(ex + '!0', n, i, I(0), I(0))
    def obs(t):
        # the symbol table starts with a zero for every symbol, in whatever order
        if t[0] == 'app' and t[2] and t[2][0][0] == 'adt':
            a = t[2][0]
            tab = T.tup(*[T.tup(models.haskey(a[3][0], K(k)), models.mapval(a[3][0], K(k))) for k in kinds])
            return ('app', t[1], (mk_adt(a[1], a[2], [tab] + list(a[3][1:])),) + t[2][1:])
        return t
    o.append(C.go('metrics entry point', ent, [C.i()], entry, more=[ex], observe=obs))
    return o

@prop('P08')
def p08(C):
    """alphabets"""
    o = []
    o.append(C.go('first action of an emission', C.need(C.em, 'get_first_atomic_action'), [C.e()], lambda A, e: C.em_first(e), leaf=True))
    o.append(C.go('actions of an emission', C.need(C.em, 'get_all_atomic_actions'), [C.e()], lambda A, e: C.em_acts(e), leaf=True))
    o.append(C.go('actions of a reception', C.need(C.rc, 'get_all_atomic_actions'), [C.r()], lambda A, r: C.rc_acts(r), leaf=True))
    n = sym('n', 'usize')
    def spe(A, e, k):
        tg = C.em_('targets', e)
        if not A.b(lt(k, T.length(tg))): return PANIC
        t = index(tg, k)
        if A.var(t, C.TR) != 'Lifeline': return PANIC
        return C.ta(C.lf(t), 'Reception', C.em_('ms_id', e))
    def spr(A, r, k):
        if not A.b(lt(k, T.length(C.rc_('recipients', r)))): return PANIC
        return C.ta(index(C.rc_('recipients', r), k), 'Reception', C.rc_('ms_id', r))
    o.append(C.go('action of an emission target', C.need(C.em, 'get_specific_atomic_action'), [C.e(), n], spe, leaf=True))
    o.append(C.go('action of a reception recipient', C.need(C.rc, 'get_specific_atomic_action'), [C.r(), n], spr, leaf=True))
    o.append(C.go('first action of a reception', C.need(C.rc, 'get_first_atomic_action'), [C.r()], lambda A, r: spr(A, r, I(0)), leaf=True))
    o.append(C.go('alphabet', C.need(C.im, 'get_all_trace_actions'), [C.i()], homo(C, 'get_all_trace_actions', EMPTY, C.em_acts, C.rc_acts)))
    o.append(C.go('alphabet outside loops', C.need(C.im, 'get_trace_actions_outside_loops'), [C.i()],
                  homo(C, 'get_trace_actions_outside_loops', EMPTY, C.em_acts, C.rc_acts, loop=lambda x: EMPTY)))
    return o

# ------------------------------------------------------------------ total order
FLIP = {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}
ORD = 'std::cmp::Ordering'

def conj(p, q):
    for a, v in q.items():
        p = p.assume(a, v)
        if p is None: return None
    return p

def renorm(pc):
    """partition rewritten with the linear equalities it implies, and with what is known of the first
    position of a range satisfying a condition (None when contradictory)"""
    import contract
    for _ in range(3):
        m = {k: w for k, w in contract.facts(E.PC({}, pc.ge)).items() if k[0] == 'app' and k[1] == 'len'}
        n = E.PC()
        ch = False
        firsts = set()
        for a, v in pc.items():
            def see(t):
                if t[0] == 'first' and t[2][0] == 'app' and t[2][1] == 'range': firsts.add(t)
                return False
            def upd(t):
                return subst(t, m) if m else t
            keep = a[0] == 'ge' and len(a[1]) == 2 and all(x[0] == 'app' and x[1] == 'len' for x, _ in a[1])
            t = a
            if m and not keep and mentions_any(a[1] if a[0] == 'ge' else a, lambda t: t in m):
                ch = True
                t = T.reatom(a, upd)
                if t[0] in ('bool', 'vn'):
                    if t[1] not in v: return None
                    continue
                if t[0] != 'ite': t = as_dt(t)
                ps = [q for q, l in E.Engine.split(STUB, n, t) if l[1] in v]
                if not ps: return None
                if len(ps) == 1: n = ps[0]
                for q, _ in n.items(): mentions_any(q, see)
            else:
                n = n.assume(a, v)
                mentions_any(a, see)
            if n is None: return None
        for f in firsts:
            for c in (lt(f, f[2][2][1]), le_(f[2][2][0], f)):
                ps = [q for q, l in E.Engine.split(STUB, n, as_dt(c)) if l == TRUE]
                if not ps: return None
                n = ps[0]
        if not ch: return n
        pc = n
    return pc

def le_(a, b): return bnot(lt(b, a))

class STUB:
    class stats: splits = 0
STUB.split = lambda pc, t: E.Engine.split(STUB, pc, t)

def equal_on(pc, x, y, c, P=None, depth=0):
    """the partition forces component c (a function of a value) to be the same on both sides"""
    if equal_direct(pc, x, y, c): return True
    if depth > 3: return False
    a, b = c(x), c(y)
    adts = {at[2] for at, v in pc.d.items() if at[0] == 'disc' and at[1] in (a, b)}
    def under(t, r):
        while t[0] == 'fld' and t != r:
            if t[1] == r: return t
            t = t[1]
        return None
    for at, _ in pc.items():
        def see(t):
            if t[0] == 'fld' and t[1] == a: adts.add(t[2])
            return False
        mentions_any(at[1] if at[0] == 'ge' else at, see)
    for ad in adts:
        ka, kb = pc.known(('disc', a, ad)), pc.known(('disc', b, ad))
        if len(ka) == 1 and ka == kb:
            n = T.NFIELDS.get((ad, ka[0]))
            if n is not None and all(equal_on(pc, x, y, lambda t, i=i: fld(c(t), ad, ka[0], i), P, depth + 1) for i in range(n)): return True
    return False

def covers(pc, src, a, b):
    """the positions of the two lists are all in src"""
    import linear
    if src in (a, b): src = T.app('range', I(0), T.length(src))
    if src[0] != 'app' or src[1] != 'range' or src[2][0] != I(0): return False
    hi = src[2][1]
    cs = linear.of_pc(pc)
    if all(linear.entails(cs, linear.ge(hi, T.length(t))) for t in (a, b)): return True
    # the lists are known to be as long as one another, or the longer is looked at as far as the other: the lengths are compared
    return False

def equal_direct(pc, x, y, c):
    a, b = c(x), c(y)
    if a == b: return True
    import contract
    class A: pass
    A = A(); A.pc = pc; A.facts = lambda: contract.facts(pc)
    if contract.simp(a, A) == contract.simp(b, A): return True
    if pc.known(('cmp',) + tuple(sorted((a, b), key=rk))) == ('Equal',): return True
    for at, v in pc.items():
        if at[0] == 'b' and at[1][0] == 'exists' and v == (False,):
            e = at[1]
            if not (mentions(e, a) and mentions(e, b)): continue
            k = fresh()
            body = as_dt(open_(e[1], e[3], k))
            ia, ib = T.app('index', a, k), T.app('index', b, k)
            # the positions that are not looked at hold nothing, in either list
            ok = covers(pc, e[2], a, b)
            for leaf, d in E.split_tree(body):
                if leaf != FALSE or not ok: continue
                d = dict(d)
                la, lb = lt(k, T.length(a)), lt(k, T.length(b))
                p = E.PC()
                for q, v in d.items():
                    p = p and p.assume(q, v)
                if p is None: continue
                na, nb = p.resolve(as_dt(la)), p.resolve(as_dt(lb))
                if na == FALSE and nb == FALSE: continue
                if na == TRUE and nb == TRUE:
                    if p.known(('cmp',) + tuple(sorted((ia, ib), key=rk))) == ('Equal',): continue
                    if p.resolve(as_dt(eq(ia, ib))) == TRUE: continue
                    class A2: pass
                    A2 = A2(); A2.pc = p; A2.facts = lambda: contract.facts(p)
                    if contract.simp(ia, A2) == contract.simp(ib, A2): continue
                ok = False; break
            if ok: return True
    return False

def shapes(C, adt, nm, most=2):
    """values whose lists are given element by element: (variant, value) for every record or variant that holds lists"""
    out = []
    for v in C.P.adts[adt]['variants']:
        lists = [i for i, f in enumerate(v['fields']) if f[1].startswith('std::vec::Vec<')]
        if not lists: continue
        def build(ns):
            fs = []
            for i, f in enumerate(v['fields']):
                if i in lists: fs.append(coll('seq', [('one', sym('%s.%s%d' % (nm, f[0], k), f[1][14:-1])) for k in range(ns[lists.index(i)])]))
                else: fs.append(sym('%s.%s' % (nm, f[0]), f[1]))
            return mk_adt(adt, v['name'], fs)
        import itertools
        for ns in itertools.product(range(most + 1), repeat=len(lists)): out.append((v['name'], build(ns)))
    return out

def ordpair(C, eng, key, adt, x, y, res):
    """[(variants, what is wrong)] of the comparison of x and y; None when it is outside the analysed fragment"""
    import contract
    short = pp.short(key)
    o1 = eng.analyse(key, [x, y]); o2 = eng.analyse(key, [y, x])
    o1 = [(v, s.pc) for k, v, s in o1 if k == 'ret']
    o2 = [(v, s.pc) for k, v, s in o2 if k == 'ret']
    res.outcomes += len(o1)
    bad = [p for v, p in o1 + o2 if v[0] != 'adt' or contract.unknown_pc(p, ())]
    if bad:
        res.undecided.append('%s: %d partitions outside the analysed fragment' % (short, len(bad))); return None, None
    known = lambda p, t: (t[2],) if t[0] == 'adt' else p.known(('disc', t, adt))
    vs = C.P.adts[adt]['variants']
    rank, by, out = {}, {}, []
    for v2, p2 in o2:
        for a in known(p2, x):
            for c in known(p2, y): by.setdefault((a, c), []).append((v2, p2))
    for v, p in o1:
        for a in known(p, x):
            for c in known(p, y):
                pa = p if x[0] == 'adt' else p.assume(('disc', x, adt), (a,))
                pa = pa if y[0] == 'adt' else pa and pa.assume(('disc', y, adt), (c,))
                if pa is None: continue
                if a != c: rank.setdefault((a, c), set()).add(v[2])
                for v2, p2 in by.get((a, c), ()):
                    if v2[2] == FLIP[v[2]]: continue
                    j = conj(pa, p2)
                    if j is None or not contract.consistent(j): continue
                    j = renorm(j)
                    if j is None or not contract.consistent(j): continue
                    res.leaves += 1
                    out.append(((a, c), '%s: %s and %s compare as %s, the other way round as %s (when %s)' % (short, a, c, v[2], v2[2], pp.ppc(j)[:600])))
                if v[2] == 'Equal':
                    if a != c: out.append(((a, c), '%s: %s and %s compare as Equal' % (short, a, c))); continue
                    if not contract.consistent(pa): continue
                    j = renorm(pa)
                    if j is None or not contract.consistent(j): continue
                    d = [w for w in vs if w['name'] == a][0]
                    for i, f in enumerate(d['fields']):
                        res.leaves += 1
                        if not equal_on(pa, x, y, lambda t: fld(t, adt, a, i)):
                            out.append(((a, c), '%s: two %s values compare as Equal although %s is not compared (when %s)' % (short, a, f[0], pp.ppc(pa)[:600])))
    return out, rank

def ordcheck(C, cid, key, adt, others=()):
    P = C.P
    res = Result(cid); res.fn = key
    b = P.bodies[key]; res.where = '%s:%d' % (b['file'], b['line'])
    t0 = time.time()
    import contract, models
    # the orders of the parts are decided on their own
    def part(eng, st, info, a):
        return models.split_ret(eng, st, E.cmp_to_adt(T.cmp_(eng.deep(st, a[0]), eng.deep(st, a[1]))))
    eng = E.Engine(P, set())
    eng.hook = {k: part for k in others if k != key}
    eng.delegates = contract.Delegates(P)
    short = pp.short(key)
    vs = P.adts[adt]['variants']
    wrong, rank = [], {}
    try: wrong, rank = ordpair(C, eng, key, adt, sym('x', adt), sym('y', adt), res)
    except E.GiveUp as g: res.undecided.append('%s: %s' % (short, g)); wrong = None
    sx, sy = shapes(C, adt, 'x'), shapes(C, adt, 'y')
    listed = {v for v, _ in sx}
    if sx and (wrong is None or any(a in listed and c in listed for (a, c), _ in wrong)):
        # not settled for lists of any length: settled for those of a few elements
        if wrong is not None or len(vs) == 1: res.undecided = []
        kept = [w for w in wrong or () if not (w[0][0] in listed and w[0][1] in listed)]
        try:
            for a, x in sx:
                for c, y in sy:
                    w, _ = ordpair(C, eng, key, adt, x, y, res)
                    kept += w or ()
        except E.GiveUp as g: res.undecided.append('%s: %s' % (short, g))
        if len(vs) == 1: rank = {}
        if wrong is not None or len(vs) == 1: wrong = kept
    if wrong is None or rank is None:
        res.wall = time.time() - t0
        return res
    res.functions = sorted(eng.stats.functions); res.loops, res.blocks = eng.stats.loops, eng.stats.blocks
    for _, w in wrong:
        if w not in res.violations: res.violations.append(w)
    names = [w['name'] for w in vs]
    for a in names:
        for c in names:
            if a == c: continue
            r = rank.get((a, c))
            if r is None or len(r) != 1: res.violations.append('%s: the order of %s and %s is not fixed (%s)' % (short, a, c, r)); continue
            for e in names:
                if e in (a, c): continue
                if rank[(a, c)] == {'Less'} and rank.get((c, e)) == {'Less'} and rank.get((a, e)) != {'Less'}:
                    res.violations.append('%s: %s < %s < %s but not %s < %s' % (short, a, c, e, a, e))
    res.wall = time.time() - t0
    return res

@prop('P09')
def p09(C):
    o = []
    def ord_of(adt): return [k for k in C.P.bodies if k.endswith('std::cmp::Ord for %s>::cmp' % adt) or k == '<%s as std::cmp::Ord>::cmp' % adt]
    every = [k for t in (C.TR, C.EM, C.RC) for k in ord_of(t)]
    def one(name, adt):
        ks = ord_of(adt)
        if len(ks) != 1: raise __import__('resolve').Missing('ordering of ' + adt)
        o.append(Obl('order of ' + name, lambda: ordcheck(C, 'order of ' + name, ks[0], adt, every)))
        # the operators (and the sorting functions, which use them) go through partial_cmp
        pk = [k for k in C.P.bodies if k.endswith('std::cmp::PartialOrd for %s>::partial_cmp' % adt) or k == '<%s as std::cmp::PartialOrd>::partial_cmp' % adt]
        if len(pk) != 1: raise __import__('resolve').Missing('operators on ' + adt)
        o.append(C.go('operators on ' + name, pk[0], [sym('x', adt), sym('y', adt)], lambda A, x, y: T.some(T.app(ks[0], x, y)), leaf=True, more=[ks[0]]))
    one('targets', C.TR); one('emissions', C.EM); one('receptions', C.RC); one('interactions', C.INT)
    return o
