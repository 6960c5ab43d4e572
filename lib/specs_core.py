"""Specifications of the interaction language: static functions, operational semantics."""
from base import *

BIN = ('Strict', 'Seq', 'CoReg', 'Par', 'Sync')

class Core2(Core):
    def __init__(self, P):
        super().__init__(P)
        C = self
        self.can = int_canon(C)
        self.hooks = {}
        def lemma(key, f):
            if key is None: return
            def h(eng, st, info, args): return [('ret', f(*[eng.deep(st, a) for a in args]), st)]
            self.hooks[key] = h
        self.lemma = lemma
        lemma(self.im.get('prune_with_affected'), self.pwa)
        lemma(self.im.get('involves_any_of'), lambda x, l: bnot(disjoint(C.im_('involved_lifelines', x), l)))
        lemma(self.fr.get('execute_interaction'), self.exe)
        def unfold(name, emp, em, rc, join, loop):
            key = self.im.get(name)
            if key is None: return
            def red(x, *r):
                if x[0] == 'adt' and x[1] == C.INT and len(r) == (1 if name == 'avoids_all_of' else 0):
                    v, f = x[2], x[3]
                    if v == 'Empty': return emp
                    if v == 'Emission': return em(f[0], *r)
                    if v == 'Reception': return rc(f[0], *r)
                    if v == 'Loop': return loop if loop is not None else T.mk_app(key, (f[1],) + r)
                    if v == 'Alt' and join is band: return bor(T.mk_app(key, (f[-2],) + r), T.mk_app(key, (f[-1],) + r))
                    if v != 'And': return join(T.mk_app(key, (f[-2],) + r), T.mk_app(key, (f[-1],) + r))
                return ('app', key, (x,) + r)
            T.REAPP[key] = red
        unfold('express_empty', TRUE, lambda e: FALSE, lambda r: bnot(nonempty(C.rc_('recipients', r))), band, TRUE)
        unfold('avoids_all_of', TRUE, lambda e, l: disjoint(C.em_lfs(e), l), lambda r, l: disjoint(C.rc_lfs(r), l), band, TRUE)
        unfold('involved_lifelines', EMPTY, lambda e: C.em_lfs(e), lambda r: C.rc_lfs(r), union, None)
        unfold('get_all_trace_actions', EMPTY, lambda e: C.em_acts(e), lambda r: C.rc_acts(r), union, None)
        self.em_ = lambda n, e: fld(e, C.EM, 'EmissionAction', self.fi(C.EM, n))
        self.rc_ = lambda n, e: fld(e, C.RC, 'ReceptionAction', self.fi(C.RC, n))
    def fi(self, adt, name, var=0):
        v = self.P.adts[adt]['variants'][var]
        for i, f in enumerate(v['fields']):
            if f[0] == name: return i
        raise resolve.Missing('field %s of %s' % (name, adt))
    def hk(self, name, *a):
        k = self.need(self.im, name)
        if name == 'involves_any_of': return bnot(disjoint(self.im_('involved_lifelines', a[0]), a[1]))
        return self.call(k, *a)
    # functions proved to be related to others: their results are expressed with those
    def pwa(self, x, L): return tup(self.im_('prune', x, L), app('prune.affected', x, L))
    def exe(self, i, p, L, ga):
        return self.struct(self.a('ExecutionResult', 'core::'), interaction=app('execute.result', i, p, L), affected_lifelines=ite(as_dt(ga), app('execute.affected', i, p, L), app('execute.noaffected', i, p, L)))
    # leaf notions
    def is_lf(self, t): return isvar(t, self.TR, 'Lifeline')
    def lf(self, t): return fld(t, self.TR, 'Lifeline', 0)
    def em_lfs(self, e):
        C = self
        return union(single('set', C.em_('origin_lf_id', e)), fm('set', C.em_('targets', e), C.is_lf, C.lf))
    def rc_lfs(self, e): return coll('set', gens_of(self.rc_('recipients', e), 'set'))
    def ta(self, lf, kind, ms): return self.struct(self.TA, lf_id=lf, act_kind=mk_adt(self.a('TraceActionKind', 'core::'), kind, []), ms_id=ms)
    def em_acts(self, e):
        C = self
        return union(single('set', C.em_first(e)), fm('set', C.em_('targets', e), C.is_lf, lambda t: C.ta(C.lf(t), 'Reception', C.em_('ms_id', e))))
    def em_first(self, e): return self.ta(self.em_('origin_lf_id', e), 'Emission', self.em_('ms_id', e))
    def rc_acts(self, e):
        C = self
        return fm('set', C.rc_('recipients', e), lambda t: TRUE, lambda t: C.ta(t, 'Reception', C.rc_('ms_id', e)))
    def is_async(self, s): return isvar(s, self.SY, 'Asynchronous')
    def mk_rc(self, gt, ms, sy, rcp): return self.struct(self.RC, origin_gt_id=gt, ms_id=ms, synchronicity=sy, recipients=rcp)
    def mk_em(self, lf, ms, sy, tg): return self.struct(self.EM, origin_lf_id=lf, ms_id=ms, synchronicity=sy, targets=tg)
    @property
    def ASYNC(self): return mk_adt(self.SY, 'Asynchronous', [])
    def i(self, n='i'): return sym(n, self.INT)
    def e(self, n='e'): return sym(n, self.EM)
    def r(self, n='r'): return sym(n, self.RC)
    def go(self, cid, key, args, spec, **kw):
        if kw.pop('leaf', False): voc = set()
        else: voc = self.vocab_int - {key}
        voc = (voc | set(kw.pop('more', ()))) - set(kw.pop('less', ()))
        hooks = dict(self.hooks); hooks.update(kw.pop('hooks', None) or {})
        return Obl(cid, lambda: check(self.P, cid, key, args, spec, voc, hooks=hooks, **kw))

LS = sym('L', 'std::collections::BTreeSet<usize>')

def homo(C, name, empty, em, rc, loop=None, args=(), join=union):
    """specification of a union-like homomorphism on interactions"""
    def spec(A, i, *r):
        v = A.var(i, C.INT); f = C.fields(i, v)
        E = lambda x: C.hk(name, x, *r)
        if v == 'Empty': return empty
        if v == 'Emission': return em(f[0], *r)
        if v == 'Reception': return rc(f[0], *r)
        if v == 'Loop': return loop(E(f[1])) if loop else E(f[1])
        if v in BIN + ('Alt',): return join(E(f[-2]), E(f[-1]))
        return PANIC
    return spec

@prop('P01')
def p01(C):
    E = lambda x: C.im_('express_empty', x)
    def spec(A, i):
        v = A.var(i, C.INT); f = C.fields(i, v)
        if v in ('Empty', 'Loop'): return TRUE
        if v == 'Emission': return FALSE
        if v == 'Reception': return bnot(nonempty(C.rc_('recipients', f[0])))
        if v in BIN: return band(E(f[-2]), E(f[-1]))
        if v == 'Alt': return bor(E(f[0]), E(f[1]))
        return PANIC
    return [C.go('accepts-empty', C.need(C.im, 'express_empty'), [C.i()], spec, asbool=True)]

@prop('P02')
def p02(C):
    o = []
    for d, e, lf in ((C.em, C.e(), C.em_lfs), (C.rc, C.r(), C.rc_lfs)):
        t = 'emission' if d is C.em else 'reception'
        o.append(C.go('%s-involved' % t, C.need(d, 'involved_lifelines'), [e], lambda A, e, lf=lf: lf(e), leaf=True))
        o.append(C.go('%s-involves' % t, C.need(d, 'involves_any_of'), [e, LS], lambda A, e, l, lf=lf: bnot(disjoint(lf(e), l)), leaf=True, asbool=True))
        o.append(C.go('%s-avoids' % t, C.need(d, 'avoids_all_of'), [e, LS], lambda A, e, l, lf=lf: disjoint(lf(e), l), leaf=True, asbool=True))
    o.append(C.go('involved', C.need(C.im, 'involved_lifelines'), [C.i()], homo(C, 'involved_lifelines', EMPTY, C.em_lfs, C.rc_lfs)))
    o.append(C.go('involves', C.need(C.im, 'involves_any_of'), [C.i(), LS],
                  homo(C, 'involves_any_of', FALSE, lambda e, l: bnot(disjoint(C.em_lfs(e), l)), lambda e, l: bnot(disjoint(C.rc_lfs(e), l)), join=bor), asbool=True))
    def av(A, i, L):
        v = A.var(i, C.INT); f = C.fields(i, v)
        E = lambda x: C.im_('avoids_all_of', x, L)
        if v in ('Empty', 'Loop'): return TRUE
        if v == 'Emission': return disjoint(C.em_lfs(f[0]), L)
        if v == 'Reception': return disjoint(C.rc_lfs(f[0]), L)
        if v in BIN: return band(E(f[-2]), E(f[-1]))
        if v == 'Alt': return bor(E(f[0]), E(f[1]))
        return PANIC
    o.append(C.go('avoids', C.need(C.im, 'avoids_all_of'), [C.i(), LS], av, asbool=True))
    return o

def prune_shape(C, A, i, L, E):
    """pruned interaction (pre: i avoids L)"""
    v = A.var(i, C.INT); f = C.fields(i, v)
    a = lambda x: C.im_('avoids_all_of', x, L)
    if v in ('Empty', 'Emission', 'Reception'): return i
    if v in BIN: return C.I(v, *(f[:-2] + [E(f[-2]), E(f[-1])]))
    if v == 'Alt':
        b1, b2 = A.b(a(f[0])), A.b(a(f[1]))
        if b1 and b2: return C.I('Alt', E(f[0]), E(f[1]))
        if b1: return E(f[0])
        if b2: return E(f[1])
        return PANIC
    if v == 'Loop':
        if A.b(a(f[1])): return C.I('Loop', f[0], E(f[1]))
        return C.Empty
    return PANIC

@prop('P03')
def p03(C):
    def pr(A, i, L): return prune_shape(C, A, i, L, lambda x: C.im_('prune', x, L))
    def pa(A, i, L):
        P = lambda x: C.pwa(x, L)
        inv = lambda x: C.im_('involved_lifelines', x)
        a = lambda x: C.im_('avoids_all_of', x, L)
        n, af = (lambda x: tfld(P(x), 0)), (lambda x: tfld(P(x), 1))
        v = A.var(i, C.INT); f = C.fields(i, v)
        if v in ('Empty', 'Emission', 'Reception'): return tup(i, EMPTY)
        if v in BIN: return tup(C.I(v, *(f[:-2] + [n(f[-2]), n(f[-1])])), union(af(f[-2]), af(f[-1])))
        if v == 'Alt':
            b1, b2 = A.b(a(f[0])), A.b(a(f[1]))
            if b1 and b2: return tup(C.I('Alt', n(f[0]), n(f[1])), union(af(f[0]), af(f[1])))
            if not b1 and not b2: return PANIC
            return tup(n(f[0] if b1 else f[1]), union(inv(f[0]), inv(f[1])))
        if v == 'Loop':
            if A.b(a(f[1])): return tup(C.I('Loop', f[0], n(f[1])), af(f[1]))
            return tup(C.Empty, inv(f[1]))
        return PANIC
    return [C.go('prune', C.need(C.im, 'prune'), [C.i(), LS], pr, canon=C.can),
            C.go('prune-with-affected', C.need(C.im, 'prune_with_affected'), [C.i(), LS], pa, canon=C.can)]

def elimination(C):
    def em(A, e, L):
        keep = fm('seq', C.em_('targets', e), lambda t: bor(bnot(C.is_lf(t)), bnot(contains(L, C.lf(t)))), lambda t: t)
        if not A.b(contains(L, C.em_('origin_lf_id', e))):
            return C.I('Emission', C.mk_em(C.em_('origin_lf_id', e), C.em_('ms_id', e), C.em_('synchronicity', e), keep))
        rc = fm('seq', C.em_('targets', e), lambda t: band(C.is_lf(t), bnot(contains(L, C.lf(t)))), C.lf)
        if not A.b(nonempty(rc)): return C.Empty
        return C.I('Reception', C.mk_rc(none(), C.em_('ms_id', e), C.em_('synchronicity', e), rc))
    def rc(A, e, L):
        keep = fm('seq', C.rc_('recipients', e), lambda t: bnot(contains(L, t)), lambda t: t)
        if not A.b(nonempty(keep)): return C.Empty
        return C.I('Reception', C.mk_rc(C.rc_('origin_gt_id', e), C.rc_('ms_id', e), C.rc_('synchronicity', e), keep))
    def it(A, i, L):
        v = A.var(i, C.INT); f = C.fields(i, v)
        E = lambda x: C.im_('eliminate_lifelines', x, L)
        if v == 'Empty': return C.Empty
        if v == 'Emission': return C.call(C.need(C.em, 'eliminate_lifelines'), f[0], L)
        if v == 'Reception': return C.call(C.need(C.rc, 'eliminate_lifelines'), f[0], L)
        if v == 'CoReg': return C.I('CoReg', fm('seq', f[0], lambda t: bnot(contains(L, t)), lambda t: t), E(f[1]), E(f[2]))
        if v == 'Sync': return C.I('Sync', fm('seq', f[0], lambda t: bnot(contains(L, C.field(t, C.TA, 'lf_id'))), lambda t: t), E(f[1]), E(f[2]))
        if v == 'Loop':
            A.var(E(f[1]), C.INT)
            return C.I('Loop', f[0], E(f[1]))
        if v in BIN + ('Alt',): return C.I(v, E(f[0]), E(f[1]))
        return PANIC
    leafv = [C.need(C.em, 'eliminate_lifelines'), C.need(C.rc, 'eliminate_lifelines')]
    return [C.go('emission', leafv[0], [C.e(), LS], em, leaf=True),
            C.go('reception', leafv[1], [C.r(), LS], rc, leaf=True),
            C.go('interaction', C.need(C.im, 'eliminate_lifelines'), [C.i(), LS], it, canon=int_canon(C, True), more=leafv)]

@prop('P04')
def p04(C): return elimination(C)

def fe(C, pos, lfs, acts, d):
    return C.struct(C.a('FrontierElement', 'core::'), position=pos, target_lf_ids=lfs, target_actions=acts, max_loop_depth=d)

def frontier_spec(C, gk):
    FE = C.a('FrontierElement', 'core::')
    F = lambda x, n: C.field(x, FE, n)
    P = lambda v, *a: mk_adt(C.POS, v, list(a))
    mv = lambda side, x: fe(C, P(side, F(x, 'position')), F(x, 'target_lf_ids'), F(x, 'target_actions'), F(x, 'max_loop_depth'))
    def both(x, y): return fe(C, P('Both', F(x, 'position'), F(y, 'position')), union(F(x, 'target_lf_ids'), F(y, 'target_lf_ids')),
                              union(F(x, 'target_actions'), F(y, 'target_actions')), mx(F(x, 'max_loop_depth'), F(y, 'max_loop_depth')))
    def mx(a, b): return ite(lt(a, b), b, a)
    def pairs(A1, A2, cond, f):
        x, y = fresh(), fresh()
        inner = gens1(cond(x, y), f(x, y))
        return coll('set', mk_for_over(x, A1, 'set', ('gens', mk_for_over(y, A2, 'set', inner))))
    def exists(S, p):
        y = fresh(); return mk_exists(y, S, p(y))
    def spec(A, d, i, dep):
        v = A.var(i, C.INT); f = C.fields(i, v)
        G = lambda x, dd=dep: C.call(gk, d, x, dd)
        if v == 'Empty': return EMPTY
        if v == 'Emission':
            if A.b(C.is_async(C.em_('synchronicity', f[0]))):
                return single('set', fe(C, P('Epsilon', none()), single('set', C.em_('origin_lf_id', f[0])), single('set', C.em_first(f[0])), dep))
            return single('set', fe(C, P('Epsilon', none()), C.em_lfs(f[0]), C.em_acts(f[0]), dep))
        if v == 'Reception':
            if A.b(C.is_async(C.rc_('synchronicity', f[0]))):
                return fm('set', C.rc_('recipients', f[0]), lambda t: TRUE, lambda t: fe(C, P('Epsilon', some(('idx', t))), single('set', t), single('set', C.ta(t, 'Reception', C.rc_('ms_id', f[0]))), dep))
            return single('set', fe(C, P('Epsilon', none()), C.rc_lfs(f[0]), C.rc_acts(f[0]), dep))
        if v == 'Loop': return fm('set', G(f[1], add(dep, I(1))), lambda t: TRUE, lambda t: mv('Left', t))
        if v not in BIN + ('Alt',): return PANIC
        a, b = f[-2], f[-1]
        left = lambda c=lambda t: TRUE: fm('set', G(a), c, lambda t: mv('Left', t))
        right = lambda c=lambda t: TRUE: fm('set', G(b), c, lambda t: mv('Right', t))
        av = lambda L: C.im_('avoids_all_of', a, L)
        if v == 'Strict': return union(left(), right() if A.b(C.im_('express_empty', a)) else EMPTY)
        if v == 'Seq': return union(left(), right(lambda t: av(F(t, 'target_lf_ids'))))
        if v == 'CoReg': return union(left(), right(lambda t: av(fm('set', F(t, 'target_lf_ids'), lambda l: bnot(contains(f[0], l)), lambda l: l))))
        if v == 'Par': return union(left(), right())
        if v == 'Alt':
            if not A.b(d): return union(left(), right())
            same = lambda x, y: eq(F(x, 'target_actions'), F(y, 'target_actions'))
            return union(pairs(G(a), G(b), same, both),
                         left(lambda x: bnot(exists(G(b), lambda y: same(x, y)))),
                         right(lambda y: bnot(exists(G(a), lambda x: same(x, y)))))
        if v == 'Sync':
            it = lambda x: fm('set', F(x, 'target_actions'), lambda t: contains(f[0], t), lambda t: t)
            no = lambda x: bnot(nonempty(it(x)))
            return union(left(no), right(no), pairs(G(a), G(b), lambda x, y: band(band(bnot(no(x)), bnot(no(y))), eq(it(x), it(y))), both))
    return spec

def as_set(t):
    if t[0] == 'ite': return push1(as_set, t)
    if t[0] == 'coll': return set_norm(coll('set', [g for g in t[2]]))
    return t

@prop('P05')
def p05(C):
    gk = C.need(C.fr, 'global_frontier_rec')
    d, dep = sym('delayed_alt', 'bool'), sym('loop_depth', 'u32')
    spec = frontier_spec(C, gk)
    top = C.f('global_frontier')
    return [C.go('frontier', gk, [d, C.i(), dep], spec, observe=as_set),
            C.go('entry', top, [C.i(), d], lambda A, i, d: C.call(gk, d, i, I(0)), more=[gk])]

@prop('P06')
def p06(C):
    ER = C.a('ExecutionResult', 'core::')
    res = lambda i, a: C.struct(ER, interaction=i, affected_lifelines=a)
    L, p, ga = sym('L', 'set'), sym('p', C.POS), sym('get_affected', 'bool')
    def leaf(A, i, sp, L, ga=None):
        v = A.var(i, C.INT); f = C.fields(i, v)
        if v == 'Emission':
            e = f[0]
            if not A.b(C.is_async(C.em_('synchronicity', e))): return C.Empty
            tg = fm('seq', C.em_('targets', e), C.is_lf, C.lf)
            if not A.b(nonempty(tg)): return C.Empty
            return C.I('Reception', C.mk_rc(none(), C.em_('ms_id', e), C.ASYNC, tg))
        if v == 'Reception':
            e = f[0]
            if not A.b(C.is_async(C.rc_('synchronicity', e))): return C.Empty
            if A.var(sp, OPT) == 'None': return PANIC
            rest = T.removeat(C.rc_('recipients', e), fld(sp, OPT, 'Some', 0))
            if not A.b(nonempty(rest)): return C.Empty
            return C.I('Reception', C.mk_rc(C.rc_('origin_gt_id', e), C.rc_('ms_id', e), C.ASYNC, rest))
        return PANIC
    def loop_next(A, k, body, new, L):
        lp = C.I('Loop', k, body)
        kk = A.var(k, C.LK)
        if kk == 'SStrictSeq': return C.I('Strict', new, lp)
        if kk == 'HHeadFirstWS': return C.I('Seq', new, lp)
        if kk == 'PInterleaving': return C.I('Par', new, lp)
        return C.I('Seq', C.im_('prune', lp, L), C.I('Seq', new, lp))
    def exe(ga):
        X = lambda x, q, L: C.exe(x, q, L, ga)
        R = lambda x, q, L: C.field(X(x, q, L), ER, 'interaction')
        F = lambda x, q, L: C.field(X(x, q, L), ER, 'affected_lifelines')
        inv = lambda x: C.im_('involved_lifelines', x)
        def spec(A, i, p, L, _ga):
            w = A.var(p, C.POS); q = [fld(p, C.POS, w, 0)] + ([fld(p, C.POS, w, 1)] if w == 'Both' else [])
            if w == 'Epsilon':
                r = leaf(A, i, q[0], L)
                return r if r == PANIC else res(r, L)
            v = A.var(i, C.INT); f = C.fields(i, v)
            if v in ('Empty', 'Emission', 'Reception', 'And'): return PANIC
            if w == 'Left':
                if v == 'Loop': return res(loop_next(A, f[0], f[1], R(f[1], q[0], L), L), inv(f[1]))
                if v == 'Alt': return res(R(f[0], q[0], L), union(inv(f[0]), inv(f[1])))
                return res(C.I(v, *(f[:-2] + [R(f[-2], q[0], L), f[-1]])), F(f[-2], q[0], L))
            if v == 'Loop': return PANIC
            a, b = f[-2], f[-1]
            if w == 'Right':
                r, af = R(b, q[0], L), F(b, q[0], L)
                if v == 'Alt': return res(r, union(inv(a), inv(b)))
                if v == 'Strict': return res(r, union(inv(a), af))
                if v == 'Seq': return res(C.I('Seq', C.im_('prune', a, L), r), union(app('prune.affected', a, L), af))
                if v == 'CoReg':
                    L2 = fm('set', L, lambda l: bnot(contains(f[0], l)), lambda l: l)
                    if not A.b(nonempty(L2)): return res(C.I('CoReg', f[0], a, r), af)
                    return res(C.I('CoReg', f[0], C.im_('prune', a, L2), r), union(app('prune.affected', a, L2), af))
                return res(C.I(v, *(f[:-2] + [a, r])), af)
            if v in ('Alt', 'Sync'): return res(C.I(v, *(f[:-2] + [R(a, q[0], L), R(b, q[1], L)])), union(F(a, q[0], L), F(b, q[1], L)))
            return PANIC
        return spec
    key = C.need(C.fr, 'execute_interaction')
    fi = lambda t: C.field(t, ER, 'interaction')
    parts = [C.fr[n] for n in C.FREE if n in C.fr]
    o = []
    for b in (TRUE, FALSE):
        def mk(b):
            def spec(A, i, p, L, g): return exe(b)(A, i, p, L, g)
            return C.go('execute-%s' % ('tracking' if b == TRUE else 'plain'), key, [C.i(), p, L, b], spec, canon=C.can, less=parts,
                        observe=(lambda t: t) if b == TRUE else (lambda t: fi(t) if t != PANIC else t))
        o.append(mk(b))
    return o
