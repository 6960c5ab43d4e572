"""Specifications of what is written: interactions, multi-traces and their names as text."""
import re
from base import *
from specs_core import *
from specs_misc import walk
from specs_ana import ana
import models
import linear
import engine
from models import merge_str, RES
import resolve

LIT = re.compile(r'[A-Za-z_0-9]+|->|--|[^\s]')

def text(*parts):
    """a text made of literal and symbolic parts"""
    g = ()
    for p in parts: g += (('spread', ('str', p) if isinstance(p, str) else p),)
    return merge_str(coll('seq', g))

def join(c, sep): return app('join', c, ('str', sep))

def tokens(C, recursive=None):
    """canonical form of texts: white space between words does not matter, a list of known length is written out"""
    def lit(s): return ' '.join('o' if w == '∅' else w for w in LIT.findall(s))
    def node(t):
        k = t[0] if t and isinstance(t[0], str) else None
        if k == 'str': return ('str', lit(t[1]))
        if k == 'app' and t[1] == 'strrepeat' and t[2][0][0] == 'str' and not t[2][0][1].strip(): return ('str', '')
        if k == 'app' and t[1] == 'join' and t[2][0][0] == 'coll' and all(g[0] == 'one' for g in t[2][0][2]):
            ps = [g[1] for g in t[2][0][2]]
            out = ()
            for j, p in enumerate(ps): out += ((('spread', t[2][1]),) if j else ()) + (('spread', p),)
            return node(('coll', 'seq', out))
        if k == 'app' and recursive:
            r = recursive(t)
            if r is not None: return r
        if k == 'coll' and t[1] == 'seq' and any(g[0] == 'spread' for g in t[2]):
            out = []
            for g in t[2]:
                ps = g[1][2] if g[0] == 'spread' and g[1][0] == 'coll' and g[1][1] == 'seq' and all(x[0] == 'spread' for x in g[1][2]) else (g,)
                for p in ps:
                    if p == ('spread', ('str', '')): continue
                    if p[0] == 'spread' and p[1][0] == 'str' and out and out[-1][0] == 'spread' and out[-1][1][0] == 'str':
                        out[-1] = ('spread', ('str', (out[-1][1][1] + ' ' + p[1][1]).strip())); continue
                    out.append(p)
            if len(out) == 1 and out[0][0] == 'spread': return out[0][1]
            return ('coll', 'seq', tuple(out))
        return t
    def can(A, t):
        # literal pieces that touch each other are one text before they are split in words
        t = walk(lambda x: merge_str(x) if x and x[0] == 'coll' and x[1] == 'seq' else x, t)
        return walk(node, t)
    return can

@prop('P28')
def p28(C):
    """interactions and multi-traces as text"""
    o = []
    GC = C.a('GeneralContext')
    g = sym('gen_ctx', GC)
    gm = lambda n: C.m('GeneralContext', n)
    names = {k: gm('get_%s_name' % k) for k in ('lf', 'ms', 'gt')}
    # every identifier in use is declared
    def known(k):
        def h(eng, st, info, args): return [('ret', mk_adt(RES, 'Ok', [app(k + '@', *[eng.deep(st, a) for a in args])]), st)]
        return h
    hooks = {k: known(k) for k in names.values()}
    def name(k, x): return app(names[k] + '@', g, x)
    kw = dict(more=list(names.values()), hooks=hooks, panics='ignore')
    can = tokens(C)
    # --- communications
    def tg(x): return ite(C.is_lf(x), name('lf', C.lf(x)), name('gt', fld(x, C.TR, 'Gate', 0)))
    def sync(A, s): return '<synch>' if A.var(s, C.SY) == 'Synchronous' else ''
    def targets(A, c, tg, none):
        ts = fm('seq', c, lambda x: TRUE, tg)
        if not A.b(nonempty(c)): return none
        if A.b(eq(T.length(c), I(1))): return text(tg(T.index(c, I(0))))
        return text('(', join(ts, ','), ')')
    em, rc = sym('emission', C.EM), sym('reception', C.RC)
    def emission(A, g, e):
        return text(name('lf', C.em_('origin_lf_id', e)), '--', sync(A, C.em_('synchronicity', e)), name('ms', C.em_('ms_id', e)), '->', targets(A, C.em_('targets', e), tg, ('str', '|')))
    ea, ra = C.f('emission_as_hif_encoding'), C.f('reception_as_hif_encoding')
    o.append(C.go('emission', ea, [g, em], emission, canon=can, **kw))
    def reception(A, g, r):
        ts = targets(A, C.rc_('recipients', r), lambda x: name('lf', x), None)
        if ts is None: return ANY
        gt = C.rc_('origin_gt_id', r)
        return text(*(([name('gt', fld(gt, OPT, 'Some', 0)), '--'] if A.var(gt, OPT) == 'Some' else []) + [sync(A, C.rc_('synchronicity', r)), name('ms', C.rc_('ms_id', r)), '->', ts]))
    o.append(C.go('reception', ra, [g, rc], reception, canon=can, **kw))
    # --- interactions
    LOOPS = {'SStrictSeq': 'loopS', 'WWeakSeq': 'loopW', 'PInterleaving': 'loopP', 'HHeadFirstWS': 'loopH'}
    OPS = {'Strict': 'strict', 'Seq': 'seq', 'Alt': 'alt', 'Par': 'par', 'CoReg': 'coreg'}
    root = C.f('interaction_as_hif_encoding')
    def inner(t):
        """a recursive call, whatever it is given besides the term"""
        k = t[1]
        if k == root or k not in C.P.bodies: return None
        b = C.P.bodies[k]
        if b['file'] != C.P.bodies[root]['file'] or 'String' not in b['locals'][0]: return None
        at = [i for i in range(b['argc']) if b['locals'][i + 1].lstrip('&').endswith('Interaction')]
        if len(at) != 1: return None
        return app(root, g, t[2][at[0]])
    rec = tokens(C, inner)
    def interaction(A, g, i):
        v = A.var(i, C.INT); f = C.fields(i, v)
        T_ = lambda x: C.call(root, g, x)
        if v == 'Empty': return text('o')
        if v == 'Emission': return C.call(ea, g, f[0])
        if v == 'Reception': return C.call(ra, g, f[0])
        if v == 'Loop': return text(LOOPS[A.var(f[0], C.LK)], '(', T_(f[1]), ')')
        if v not in OPS: return ANY
        pre = f[:-2]
        fr = lambda x: C.call(C.fr['get_recursive_%s_frags' % OPS[v]], *pre, x)
        ops = T.concat('seq', coll('seq', gens_of(fr(f[-2]), 'seq')), coll('seq', gens_of(fr(f[-1]), 'seq')))
        head = [OPS[v]]
        if v == 'CoReg': head += ['(', join(fm('seq', f[0], lambda x: TRUE, lambda x: name('lf', x)), ','), ')']
        return text(*(head + ['(', join(fm('seq', ops, lambda x: TRUE, T_), ','), ')']))
    i = C.i()
    o.append(C.go('interaction', root, [g, i], interaction, canon=rec, more=kw['more'] + [ea, ra] + [C.fr['get_recursive_%s_frags' % n] for n in OPS.values()], hooks=hooks, panics='ignore'))
    # --- traces
    acts = sym('actions', 'std::collections::BTreeSet<%s>' % C.TA)
    TK = C.a('TraceActionKind', 'core::')
    def act(a):
        w = lambda k: text(name('lf', C.field(a, C.TA, 'lf_id')), k, name('ms', C.field(a, C.TA, 'ms_id')))
        return ite(isvar(C.field(a, C.TA, 'act_kind'), TK, 'Emission'), w('!'), w('?'))
    def loose(A, t):
        """the order in which simultaneous actions or the lifelines of a co-localization are listed does not matter"""
        def f(t):
            if t[0] == 'app' and t[1] == 'join' and t[2][1] == ('str', ','):
                return T.mk_app('join', (walk(lambda x: x[2][0] if x[0] == 'app' and x[1] == 'sorted' else x, t[2][0]), t[2][1]))
            return t
        return can(A, walk(f, t))
    ta = C.f('trace_actions_as_htf_encoding')
    def actions(A, g, s):
        if A.b(eq(T.length(s), I(1))): return act(T.index(s, I(0)))
        return text('{', join(fm('seq', s, lambda x: TRUE, act), ','), '}')
    o.append(C.go('actions of a trace', ta, [g, acts], actions, canon=loose, **kw))
    CO = C.a('CoLocalizations')
    co, mt = sym('co_localizations', CO), sym('multi_trace', '')
    def multitrace(A, g, co, mt):
        locs = C.field(co, CO, 'locs_lf_ids')
        names_ = lambda l: join(fm('seq', l, lambda x: TRUE, lambda x: name('lf', x)), ',')
        trace = lambda x: join(fm('seq', T.app('index', mt, ('idx', x)), lambda y: TRUE, lambda s: C.call(ta, g, s)), '.')
        return text('{', join(fm('seq', locs, lambda x: TRUE, lambda x: ite(nonempty(x), text('[', names_(x), ']', trace(x)), text('[#any]', trace(x)))), ';'), '}')
    o.append(C.go('multi-trace', C.f('multi_trace_as_htf_encoding'), [g, co, mt], multitrace, canon=loose, more=kw['more'] + [ta], hooks=hooks, panics='ignore', same_len=[C.field(co, CO, 'locs_lf_ids'), mt]))
    return o

FILES = models.FILES
def files(*ev): return coll('seq', tuple(('one', ('tup', (('str', k),) + tuple(a))) for k, *a in ev))

def path_of(*parts): return coll('seq', tuple(('one', p) for p in parts))

@prop('P29')
def p29(C):
    """multi-traces generated along executions"""
    N = ana(C)
    o = []
    MP, OB, GN = C.a('MultiTraceProcessPrinter'), C.a('TraceGenLoggerObject'), C.a('TracegenProcessLoggerGeneration')
    INT = C.INT
    p, ob = sym('printer', MP), sym('object', OB)
    part = C.field(p, MP, 'partition')
    locs = N.locs(part)
    mu = C.field(ob, OB, 'mu')
    def pick(method, conf):
        ks = [k for k in C.R.meth.get(('MultiTraceProcessPrinter', method), []) if conf in k]
        if len(ks) != 1: raise resolve.Missing('%s of the generation of traces' % method)
        return ks[0]
    def coloc(l):
        b = fresh()
        return ('idx', T.mk_first(b, locs, contains(b, l)))
    def grown(acts):
        lf = lambda a: C.field(a, C.TA, 'lf_id')
        def one(x):
            at = lambda a: eq(('idx', x), coloc(lf(a)))
            more = fm('set', acts, at, lambda a: a)
            return ite(N.ex(acts, at), T.push('seq', x, more), x)
        return C.struct(OB, mu=fm('seq', mu, lambda x: TRUE, one))
    htf = C.f('write_multi_trace_into_file')
    def written(eng, st, info, args): return [('ret', UNIT, models.event(st, 'multi-trace', *[eng.deep(st, a) for a in args]))]
    for nm, conf, node, step, cx, pa in (('analysis', 'AnalysisConfig', 'AnalysisNodeKind', 'AnalysisStepKind', 'AnalysisContext', 'AnalysisParameterization'),
                                         ('exploration', 'ExplorationConfig', 'ExplorationNodeKind', 'ExplorationStepKind', 'ExplorationContext', 'ExplorationParameterization')):
        ND, ST, CX = C.a(node), C.a(step), C.a(cx)
        c, q, n, s = sym('context', CX), sym('param', C.a(pa)), sym('node', ND), sym('step', ST)
        o.append(C.go('%s: first multi-trace' % nm, pick('get_initial_object', conf), [p, c, q, n], lambda A, p, c, q, n: C.struct(OB, mu=fm('seq', locs, lambda x: TRUE, lambda x: EMPTY))))
        def add_(A, p, c, q, ob, s, ST=ST):
            if A.var(s, ST) != 'Execute': return ob
            return grown(N.f(fld(s, ST, 'Execute', 0), N.FE, 'target_actions'))
        o.append(C.go('%s: actions added by a step' % nm, pick('add_step_to_object', conf), [p, c, q, ob, s], add_, panics='ignore'))
        d = sym('depth', 'u32')
        def when(A, p, c, q, n, d, ND=ND):
            t = C.field(p, MP, 'tracegen')
            v = A.var(t, GN)
            if v == 'accepted': return C.im_('express_empty', C.field(n, ND, 'interaction'))
            if v == 'atExactDepth': return eq(d, fld(t, GN, v, 0))
            m = fld(t, GN, v, 0)
            return FALSE if A.b(eq(m, I(0))) else eq(app('rem', d, m), I(0))
        o.append(C.go('%s: when a file is written' % nm, pick('should_print_on_node_reached', conf), [p, c, q, n, d], when, asbool=True, panics='all'))
        path = sym('path', 'str')
        o.append(C.go('%s: what is written' % nm, pick('print_object', conf), [p, c, q, ob, path],
                      lambda A, p, c, q, ob, path, CX=CX: (ANY, {FILES: files(('multi-trace', path, C.field(c, CX, 'gen_ctx'), part, mu))}), mem={FILES: EMPTY}, hooks={htf: written}, more=[htf]))
    return o

# which contiguous parts of a trace are asked for: from position a (included) to position b (excluded) of a trace of length l
PARTS = {'prefixes': lambda a, b, l: [linear.eqs(a, I(0)) + [linear.ge(b, I(0)), linear.ge(l, b)]],
         'suffixes': lambda a, b, l: [linear.eqs(b, l) + [linear.ge(a, I(0)), linear.ge(l, a)]],
         'slices': lambda a, b, l: [[linear.ge(a, I(0)), linear.shift(linear.ge(b, a), -1), linear.ge(l, b)], linear.eqs(a, I(0)) + linear.eqs(b, I(0)) + [linear.ge(l, I(0))]]}

def bind(x, e): return {('idx', x): e[1]} if e[0] == 'elt' else {x: e}

def domain_of(t, k):
    """[(constraints, element)] of the elements of a list described by ranges and conditions"""
    if t[0] == 'app' and t[1] in ('rev', 'sorted'): return domain_of(t[2][0], k)
    if t[0] == 'app' and t[1] == 'range':
        x = fresh('b', 'usize')
        return [([linear.ge(x, t[2][0]), linear.shift(linear.ge(t[2][1], x), -1)], x)]
    if t[0] == 'ite':
        out = []
        for v, c in t[2]: out += [(linear.of_atom(t[1], (v,)) + cs, e) for cs, e in domain_of(c, k)]
        return out
    if t[0] in ('coll', 'gens'):
        out = []
        for g in t[2] if t[0] == 'coll' else t[1]:
            if g[0] == 'one': out.append(([], g[1]))
            elif g[0] == 'spread': out += domain_of(g[1], k)
            else:
                x = fresh('b', 'usize')
                body = open_(g[1], g[3], x)
                for cs, e in domain_of(g[2], k):
                    b = subst(body, bind(x, e))
                    for cs2, e2 in domain_of(b, k): out.append((cs + cs2, e2))
        return out
    if t == k[0]:
        # the elements of the trace itself: their position counts
        x, p = fresh(), fresh('b', 'usize')
        return [([linear.ge(p, I(0)), linear.shift(linear.ge(T.length(t), p), -1)], ('elt', p))]
    raise engine.GiveUp('enumeration of parts')

def steps_of(t, base, k):
    """[(constraints, next value in terms of the former one)] applied in turn to base, through nested loops"""
    if t == base: return []
    if t[0] == 'ite':
        out = []
        for v, c in t[2]: out += [(linear.of_atom(t[1], (v,)) + cs, b) for cs, b in steps_of(c, base, k)]
        return out
    if t[0] == 'fold':
        _, hh, src, init, body = t
        out = steps_of(init, base, k)
        x = fresh('b', 'usize')
        body = open_(hh, body, x)
        for cs, e in domain_of(src, k):
            for cs2, b in steps_of(subst(body, bind(x, e)), T.ACC, k): out.append((cs + cs2, b))
        return out
    if t[0] == 'app':
        inner = [c for c in t[2] if c == base or c[0] == 'fold' or (c[0] == 'app' and c[1] == t[1])]
        if len(inner) == 1: return steps_of(inner[0], base, k) + [([], T.mk_app(t[1], tuple(T.ACC if c == inner[0] else c for c in t[2])))]
    raise engine.GiveUp('enumeration of parts')

def every_part(got, n, what, h, step):
    """got writes, one after the other from number n on, all the parts of h that are asked for, and nothing else"""
    l = T.length(h)
    pieces = []
    a, b = fresh('b', 'usize'), fresh('b', 'usize')
    for cs, body in steps_of(got, n, (h,)):
        sl = []
        mentions_any(body, lambda x: sl.append(x) if x[0] == 'app' and x[1] == 'slice' and x[2][0] == h else None)
        if not sl: lo = hi = I(0); part = EMPTY
        else: part = sl[0]; lo, hi = part[2][1:]
        if body != step(T.ACC, part): return False
        try: x, y = linear.lin(lo), linear.lin(hi)
        except linear.NotLinear: raise engine.GiveUp('bounds of a part')
        if linear.infeasible(cs): continue
        # within the trace, and of the kind asked for (an empty part is a part of any kind)
        for c in (linear.ge(lo, I(0)), linear.ge(hi, lo), linear.ge(l, hi)):
            if not linear.entails(cs, c): return False
        if what == 'prefixes' and not linear.infeasible(cs + [linear.neg(linear.ge(I(0), lo)), linear.shift(linear.ge(hi, lo), -1)]): return False
        if what == 'suffixes' and not linear.infeasible(cs + [linear.shift(linear.ge(l, hi), -1), linear.shift(linear.ge(hi, lo), -1)]): return False
        pieces.append((cs, lo, hi))
    # solve the variables of each piece for the bounds
    out = []
    for cs, lo, hi in pieces:
        if all(linear.entails(cs, c) for c in linear.eqs(lo, hi)): lo = hi = I(0) if what != 'suffixes' else l
        m = {}
        todo = [(a, lo), (b, hi)]
        ok = True
        left = []
        for v, e in todo:
            d, c = linear.lin(subst(e, m))
            xs = [x for x in d if x[0] == 'sym' and x not in (a, b) and abs(d[x]) == 1 and x in linear.atoms(cs)]
            if not xs: left += linear.eqs(v, subst(e, m)); continue
            x = xs[0]
            q = d.pop(x)
            r = mul(sub(v, T.mk_lin(d, c)), I(q))
            m = {y: subst(z, {x: r}) for y, z in m.items()}; m[x] = r
        def sb(c):
            t = I(c[1])
            for y, v in c[0].items(): t = add(t, mul(m.get(y, y), I(v)))
            return linear.lin(t)
        cs2 = [sb(c) for c in cs] + left
        cs2 = linear.project(cs2, [x for x in linear.atoms(cs2) if x[0] == 'sym' and '#' in x[1] and x not in (a, b)])
        if cs2 is None: raise engine.GiveUp('bounds of a part')
        out.append(cs2)
    return all(linear.covered(r, out) for r in PARTS[what](a, b, l))

@prop('P30')
def p30(C):
    """slices of multi-traces"""
    N = ana(C)
    o = []
    htf, enc, hif, ienc = C.f('write_multi_trace_into_file'), C.f('multi_trace_as_htf_encoding'), C.f('interaction_to_hif'), C.f('interaction_as_hif_encoding')
    g, co, mt, path, i = sym('gen_ctx', C.a('GeneralContext')), sym('co_localizations', N.CO), sym('multi_trace', ''), sym('path', 'str'), C.i()
    file = lambda p, t: files(('create', p), ('write', p, t))
    o.append(C.go('file of a multi-trace', htf, [path, g, co, mt], lambda A, p, g, co, mt: (ANY, {FILES: file(p, C.call(enc, g, co, mt))}), mem={FILES: EMPTY}, more=[enc]))
    o.append(C.go('file of an interaction', hif, [path, g, i], lambda A, p, g, i: (ANY, {FILES: file(p, C.call(ienc, g, i))}), mem={FILES: EMPTY}, more=[ienc]))
    def written(eng, st, info, args): return [('ret', UNIT, models.event(st, 'multi-trace', *[eng.deep(st, a) for a in args]))]
    dr, pre, n, ok, rem = sym('dir_name', 'str'), sym('prefix', 'str'), sym('id', 'u32'), sym('ok_canals', ''), sym('rem_canals', '')
    cn, cr = ('p', 'id'), ('p', 'rem_canals')
    ref = lambda c: ('ref', c, ())
    h = T.index(rem, I(0))
    for what in PARTS:
        k = C.f('get_all_%s_rec' % what)
        a_, b_ = sym('start', 'usize'), sym('end', 'usize')
        def rec(A, g, co, dr, pre, _, ok, __, k=k, what=what):
            if not A.b(nonempty(rem)):
                f = path_of(dr, text(pre, 's', app('show', n), '.htf'))
                return ANY, {FILES: files(('multi-trace', f, g, co, ok)), cn: add(n, I(1))}
            return ANY, {FILES: EMPTY, cn: app('every', ('str', what))}
        def same(A, got, want, k=k, what=what):
            if want != app('every', ('str', what)): return False
            step = lambda acc, part: app(k + '!4', g, co, dr, pre, acc, T.push('seq', ok, part), app('rest', rem))
            return every_part(got, n, what, h, step)
        o.append(C.go(what, k, [g, co, dr, pre, ref(cn), ok, ref(cr)], rec, mem={FILES: EMPTY, cn: n, cr: rem}, hooks={htf: written}, more=[htf], same=same))
    SK, SG = C.a('SliceKind'), C.a('SliceGenerationSelection')
    KINDS = {'Prefix': 'prefixes', 'Suffix': 'suffixes', 'Slice': 'slices'}
    def called(name):
        def h(eng, st, info, args): return [('ret', UNIT, models.event(st, name, *[eng.deep(st, a) for a in args]))]
        return h
    subs = {C.f('get_all_%s_rec' % w): w for w in PARTS}
    subs[C.f('get_random_slicing')] = 'random'
    oname, par, pfx, sel, kind = sym('mu_name', 'str'), sym('parent_folder', ''), sym('file_name_prefix_opt', ''), sym('select', SG), sym('kind', SK)
    def generate(A, g, co, nm, mt, par, pfx, sel, kind):
        d = fld(par, OPT, 'Some', 0) if A.var(par, OPT) == 'Some' else text('./', nm, '_slices')
        pre = fld(pfx, OPT, 'Some', 0) if A.var(pfx, OPT) == 'Some' else ('str', '')
        if A.var(sel, SG) == 'Random':
            ev = ('random', g, co, d, pre, fld(sel, SG, 'Random', 0), mt, kind, fld(sel, SG, 'Random', 1))
        else: ev = (KINDS[A.var(kind, SK)], g, co, d, pre, I(1), EMPTY, mt)
        return ANY, {FILES: files(('mkdir', d), ev)}
    o.append(C.go('which slices are written where', C.f('generate_slices'), [g, co, oname, mt, par, pfx, sel, kind], generate, mem={FILES: EMPTY},
                  hooks={k: called(w) for k, w in subs.items()}, more=list(subs)))
    import specs_mut
    o.append(specs_mut.random_slices(C, N, htf))
    return o
