"""Specifications of the translations to PlantUML."""
from base import *
from specs_core import *
from specs_misc import walk, calls
from specs_out import text, FILES, files
from specs_transfo import decomposition
import models
import engine
from models import merge_str, RES
import resolve

def written(A, t):
    """what the files hold in the end: how it is cut in writes does not matter"""
    def spreads(gs):
        """a stretch of writes to one file, as text"""
        r = ()
        for x in gs: r += x[2] if x[0] == 'coll' and x[1] == 'seq' and x[2] and all(y[0] in ('spread', 'for') for y in x[2]) else (('spread', x),)
        return merge_str(coll('seq', r))[2] if r else ()
    def is_write(g): return g[0] == 'one' and g[1][0] == 'tup' and g[1][1] and g[1][1][0] == ('str', 'write')
    def texts(gs, p):
        """the text that a sequence of writes to p makes, or None"""
        r = ()
        for g in gs:
            if is_write(g) and g[1][1][1] == p:
                x = g[1][1][2]
                r += x[2] if x[0] == 'coll' and x[1] == 'seq' and x[2] and all(y[0] in ('spread', 'for') for y in x[2]) else (('spread', x),)
            elif g[0] == 'for':
                bad = []
                def leaf(l):
                    if l[0] != 'gens': bad.append(l); return l
                    if len(l[1]) == 1 and l[1][0][0] == 'one' and l[1][0][1][0] == 'ite': return T.push_leaf(lambda x: leaf(('gens', (('one', x),))), l[1][0][1])
                    b = texts(l[1], p)
                    if b is None: bad.append(l); return l
                    return ('gens', b)
                body = T.push_leaf(leaf, g[3])
                if bad: return None
                r += (('for', g[1], g[2], body),)
            elif g[0] == 'spread': r += (g,)
            else: return None
        if not r: return r
        m = merge_str(coll('seq', r))
        return m[2] if m[0] == 'coll' else (('spread', m),)
    if t[0] != 'coll' or t[1] != 'seq': return t
    gs = t[2]
    p = next((g[1][1][1] for g in gs if g[0] == 'one' and g[1][0] == 'tup' and g[1][1][0] in (('str', 'create'), ('str', 'write'))), None)
    if p is None: return t
    new = tuple(g for g in gs if g == ('one', ('tup', (('str', 'create'), p))))
    r = texts(tuple(g for g in gs if g not in new), p)
    if r is None: return t
    return ('tup', (('str', 'file'), p, ('int', len(new)), coll('seq', r)))

def recursion(C, root):
    """the function by which root goes through the interaction: among those that it calls in its file, the one that calls itself again and takes an interaction"""
    P = C.P
    here = lambda k: k in P.bodies and P.bodies[k]['file'] == P.bodies[root]['file'] and P.bodies[k]['kind'] in ('Fn', 'AssocFn')
    def reach(k):
        seen, todo = set(), [k]
        while todo:
            for x in calls(P.bodies[todo.pop()]):
                if here(x) and x not in seen: seen.add(x); todo.append(x)
        return seen
    at = lambda k: [i for i in range(P.bodies[k]['argc']) if P.bodies[k]['locals'][i + 1].lstrip('&') == C.INT]
    ks = [k for k in reach(root) if k in reach(k) and len(at(k)) == 1]
    if len(ks) > 1: ks = [k for k in ks if k in set(calls(P.bodies[root]))]
    return ks[0] if len(ks) == 1 else None

LOOPS = {'SStrictSeq': 'loopS', 'WWeakSeq': 'loopW', 'PInterleaving': 'loopP', 'HHeadFirstWS': 'loopH'}
SHAPES = ((1, 1), (1, 2), (2, 1))

class Puml:
    def __init__(self, C, root, what):
        self.C, self.root = C, root
        self.GC = C.a('GeneralContext')
        self.g = sym('gen_ctx', self.GC)
        gm = lambda n: C.m('GeneralContext', n)
        self.names = {k: gm('get_%s_name' % k) for k in ('lf', 'ms', 'gt')}
        def known(k):
            def h(eng, st, info, args): return [('ret', mk_adt(RES, 'Ok', [app(k + '@', *[eng.deep(st, a) for a in args])]), st)]
            return h
        self.hooks = {k: known(k) for k in self.names.values()}
        self.rec = recursion(C, root)
        self.more = list(self.names.values())
        self.what = what
    def name(self, k, x): return app(self.names[k] + '@', self.g, x)
    def frags(self, op, i, n1, n2):
        """the operands of nested operators are listed in their order (how many there are is one of SHAPES, whatever they are)"""
        C = self.C
        l, r = fld(i, C.INT, op, 0), fld(i, C.INT, op, 1)
        part = lambda x, n: tuple(('one', app('operand%d' % j, x)) for j in range(n))
        both = part(l, n1) + part(r, n2)
        k = C.need(C.fr, 'get_recursive_%s_frags' % op.lower())
        def h(eng, st, info, a):
            x = eng.deep(st, a[-1])
            if x == l: return [('ret', coll('seq', part(l, n1)), st)]
            if x == r: return [('ret', coll('seq', part(r, n2)), st)]
            if x == i or x[0] == 'adt' and x[2] == op and x[3] == (l, r): return [('ret', coll('seq', both), st)]
            raise engine.GiveUp('operands of something else')
        return {k: h}, [g[1] for g in both]

def sep(parts, s):
    out = []
    for j, p in enumerate(parts): out += ([s] if j else []) + list(p)
    return out

@prop('P33')
def p33(C):
    """translations to PlantUML"""
    o = []
    undecided = lambda nm, why: o.append(Obl(nm, lambda: unknown(nm, why)))
    def unknown(nm, why):
        import contract
        r = contract.Result(nm); r.undecided.append(why); return r
    for op in ('Alt', 'Par', 'Strict'): o.append(decomposition(C, op.lower(), op))
    for x in elimination(C):
        x.name = 'hiding: ' + x.name
        o.append(x)
    # --- sequence diagrams
    root = C.f('to_plant_uml_sd')
    U = Puml(C, root, 'sd')
    g, i, out, title = U.g, C.i(), sym('output_path', 'str'), sym('title', 'str')
    P, name = C.P, U.name
    NOT = ('CoReg', 'Sync', 'And')
    F = app('file', out)
    def part(x): return app('sequence', x)
    def rech(key):
        b = P.bodies[key]
        at = [k for k in range(b['argc']) if b['locals'][k + 1].lstrip('&') == C.INT][0]
        fa = [k for k in range(b['argc']) if 'std::fs::File' in b['locals'][k + 1]]
        def h(eng, st, info, a):
            f = eng.deep(st, a[fa[0]])
            if f[0] != 'app' or f[1] != 'file': raise engine.GiveUp('where the diagram is written')
            return [('ret', UNIT, models.event(st, 'write', f[2][0], part(eng.deep(st, a[at]))))]
        return h
    done = lambda *t: {FILES: files(('write', out, text(*t)))}
    if U.rec is None or P.bodies[U.rec]['locals'][0] != '()' or not any('std::fs::File' in t for t in P.bodies[U.rec]['locals'][1:P.bodies[U.rec]['argc'] + 1]):
        undecided('sequence diagram', 'how the interaction is gone through is not recognized')
    else:
        key = U.rec
        o.append(C.go('sequence diagram', root, [out, title, i, g], lambda A, *a: (ANY, {FILES: files(('create', out), ('write', out, text('@startuml\n', part(i), '@enduml\n')))}),
                      mem={FILES: EMPTY}, hooks=dict(U.hooks, **{key: rech(key)}), canon=written, more=U.more))
        b = P.bodies[key]
        cell = ('p', 'output_file')
        def arg(t):
            if 'std::fs::File' in t: return ('ref', cell, ())
            t = t.lstrip('&')
            if t == C.INT: return i
            if t == U.GC: return g
            return None
        args = [arg(b['locals'][k + 1]) for k in range(b['argc'])]
        def spec(A, ops):
            v = A.var(i, C.INT); f = C.fields(i, v)
            if v in NOT: return PANIC
            if v == 'Empty': return ANY, {FILES: EMPTY}
            if v == 'Emission':
                e = f[0]; lf, ms = name('lf', C.em_('origin_lf_id', e)), name('ms', C.em_('ms_id', e))
                ts = C.em_('targets', e); n = T.length(ts)
                if not A.b(nonempty(ts)): return ANY, done(lf, '-> : ', ms, '\n')
                if not A.b(eq(n, I(1))): return PANIC
                t = T.index(ts, I(0))
                if A.var(t, C.TR) == 'Gate': return ANY, done(lf, '->] : ', ms, '\n')
                return ANY, done(lf, '->', name('lf', C.lf(t)), ' : ', ms, '\n')
            if v == 'Reception':
                r = f[0]; ts = C.rc_('recipients', r)
                if not A.b(eq(T.length(ts), I(1))): return PANIC
                return ANY, done('->', name('lf', T.index(ts, I(0))), ' : ', name('ms', C.rc_('ms_id', r)), '\n')
            if v == 'Seq': return ANY, done(part(f[0]), part(f[1]))
            if v == 'Loop': return ANY, done('group ', LOOPS[A.var(f[0], C.LK)], '\n', part(f[1]), 'end\n')
            head = {'Alt': 'alt\n', 'Par': 'group par\n', 'Strict': 'group strict\n'}[v]
            return ANY, done(head, *(sep([(part(x),) for x in ops[v]], 'else\n') + ['end\n']))
        if None in args: undecided('parts of a sequence diagram', 'how the interaction is gone through is not recognized')
        else:
            for n1, n2 in SHAPES:
                hk, ops = {}, {}
                for v in ('Alt', 'Par', 'Strict'):
                    h, ops[v] = U.frags(v, i, n1, n2); hk.update(h)
                o.append(C.go('parts of a sequence diagram, %d and %d operands' % (n1, n2), key, args, lambda A, *a, ops=ops: spec(A, ops), mem={FILES: EMPTY, cell: F},
                              hooks=dict(U.hooks, **hk, **{key: rech(key)}), canon=written, panics='explicit', more=U.more))
    # --- automata of the lifelines
    root = C.f('to_plant_uml_ap')
    V = Puml(C, root, 'ap')
    name = V.name
    GC = U.GC
    apart = lambda *a: app('automaton', *a)
    body = P.bodies[V.rec] if V.rec else None
    tys = [body['locals'][k + 1].lstrip('&') for k in range(body['argc'])] if body else []
    u32 = [k for k, t in enumerate(tys) if t == 'u32']
    lfa = [k for k, t in enumerate(tys) if t == 'usize']
    fa = [k for k, t in enumerate(tys) if 'std::fs::File' in t]
    ia = [k for k, t in enumerate(tys) if t == C.INT]
    if not body or (len(u32), len(lfa), len(fa), len(ia)) != (2, 1, 1, 1) or body['locals'][0] != '(u32, u32)' or len(tys) > 6:
        undecided('automata', 'how the interaction is gone through is not recognized')
        return o
    key = V.rec
    T.UFNS.update(('last state', 'number of states'))
    nums = lambda *a: tup(app('last state', *a), app('number of states', *a))
    def h(eng, st, info, a):
        f = eng.deep(st, a[fa[0]])
        if f[0] != 'app' or f[1] != 'file': raise engine.GiveUp('where the automata are written')
        x = [eng.deep(st, a[k]) for k in (ia[0], lfa[0], u32[0], u32[1])]
        return [('ret', nums(*x), models.event(st, 'write', f[2][0], apart(*x)))]
    ek = C.need(C.im, 'eliminate_lifelines')
    show = lambda x: app('show', x)
    state = lambda lf, n: text('lf', show(lf), '_s', show(n))
    label = lambda lf, n: ite(as_dt(eq(n, I(0))), ('str', '[*]'), state(lf, n))
    every = T.app('range', I(0), T.length(C.field(g, GC, 'lf_names')))
    def top(A, out, title, i, g):
        def one(lf):
            alone = C.call(ek, i, T.filter_('set', every, lambda y: bnot(eq(y, lf))))
            x = (alone, lf, I(0), I(1))
            t = lambda l: tup(('str', 'write'), out, text('state lf_', name('lf', lf), ' {\n', apart(*x), l, ' --> [*]\n', '}\n'))
            n = app('last state', *x)
            return ite(as_dt(eq(n, I(0))), t(('str', '[*]')), t(state(lf, n)))
        return ANY, {FILES: T.concat('seq', T.concat('seq', files(('create', out), ('write', out, ('str', '@startuml\n'))), fm('seq', every, lambda x: TRUE, one)), files(('write', out, ('str', '@enduml\n'))))}
    o.append(C.go('automata', root, [out, title, i, g], top, mem={FILES: EMPTY}, hooks=dict(V.hooks, **{key: h}), canon=written, panics='ignore', more=[ek] + V.more))
    cell = ('p', 'output_file')
    lf, last, num = sym('lf_id', 'usize'), sym('last_state', 'u32'), sym('state_count', 'u32')
    args = [None] * len(tys)
    for k, t in enumerate(tys):
        args[k] = ('ref', cell, ()) if k == fa[0] else i if k == ia[0] else lf if k == lfa[0] else last if k == u32[0] else num if k == u32[1] else g if t == GC else None
    if None in args:
        undecided('parts of an automaton', 'how the interaction is gone through is not recognized')
        return o
    def part_(A, ops):
        v = A.var(i, C.INT); f = C.fields(i, v)
        if v in NOT: return PANIC
        L = label(lf, last)
        one = add(num, I(1))
        if v == 'Empty': return tup(last, num), {FILES: EMPTY}
        if v in ('Emission', 'Reception'):
            if v == 'Emission' and A.b(nonempty(C.em_('targets', f[0]))): return PANIC
            ms = name('ms', (C.em_ if v == 'Emission' else C.rc_)('ms_id', f[0]))
            return tup(num, one), done(L, ' --> ', state(lf, num), ' : ', '!' if v == 'Emission' else '?', ms, '\n')
        if v in ('Seq', 'Strict'):
            a = (f[0], lf, last, num)
            b = (f[1], lf, app('last state', *a), app('number of states', *a))
            return nums(*b), done(apart(*a), apart(*b))
        me = state(lf, num)
        if v == 'Loop':
            a = (f[1], lf, I(0), one)
            return tup(num, app('number of states', *a)), done('state ', me, ' {\n', apart(*a), label(lf, app('last state', *a)), ' --> [*]\n', '}\n', L, ' --> ', me, '\n', me, ' --> ', me, '\n')
        fork, jn = ('<<fork>>', '<<join>>') if v == 'Par' else ('<<choice>>', '<<choice>>')
        t, n, ends = ['state ', me, ' ', fork, '\n', L, ' --> ', me, '\n'], one, []
        for x in ops[v]:
            a = (x, lf, num, n)
            t.append(apart(*a)); ends.append(app('last state', *a)); n = app('number of states', *a)
        to = state(lf, n)
        t += ['state ', to, ' ', jn, '\n']
        for e in ends: t += [state(lf, e), ' --> ', to, '\n']
        return tup(n, add(n, I(1))), done(*t)
    for n1, n2 in SHAPES:
        hk, ops = {}, {}
        for v in ('Alt', 'Par'):
            hh, ops[v] = V.frags(v, i, n1, n2); hk.update(hh)
        o.append(C.go('parts of an automaton, %d and %d operands' % (n1, n2), key, args, lambda A, *a, ops=ops: part_(A, ops), mem={FILES: EMPTY, cell: F},
                      hooks=dict(V.hooks, **hk, **{key: h}), canon=written, panics='explicit', more=U.more))
    return o
