"""Specifications of what is drawn: terms as trees, steps and multi-traces as texts."""
from base import *
from specs_core import *
from specs_misc import walk, calls
from specs_ana import ana
from specs_io import ext
from specs_out import text, join, path_of, files, FILES
from specs_puml import recursion, LOOPS
import models
import engine
from models import merge_str, RES
import resolve

GRAPH = ('p', 'gv_graph')

class Names:
    def __init__(self, C):
        self.C = C
        self.GC = C.a('GeneralContext')
        self.g = sym('gen_ctx', self.GC)
        gm = lambda n: C.m('GeneralContext', n)
        self.names = {k: gm('get_%s_name' % k) for k in ('lf', 'ms', 'gt')}
        def known(k):
            def h(eng, st, info, args): return [('ret', mk_adt(RES, 'Ok', [app(k + '@', *[eng.deep(st, a) for a in args])]), st)]
            return h
        self.hooks = {k: known(k) for k in self.names.values()}
    def name(self, k, x): return app(self.names[k] + '@', self.g, x)

@prop('P34')
def p34(C):
    """interactions drawn as terms"""
    o = []
    N = Names(C)
    g, name = N.g, N.name
    kw = dict(more=list(N.names.values()), hooks=N.hooks, panics='ignore')
    # --- labels
    em, rc = sym('emission', C.EM), sym('reception', C.RC)
    ea, ra, sa = C.f('emission_as_gv_label'), C.f('reception_as_gv_label'), C.f('trace_actions_as_gv_label')
    def tg(x): return ite(C.is_lf(x), name('lf', C.lf(x)), name('gt', fld(x, C.TR, 'Gate', 0)))
    def symb(A, s, a): return '|%s|' % a if A.var(s, C.SY) == 'Synchronous' else a
    def emission(A, g, e):
        ts = C.em_('targets', e)
        t = [name('lf', C.em_('origin_lf_id', e)), symb(A, C.em_('synchronicity', e), '!'), name('ms', C.em_('ms_id', e))]
        if A.b(nonempty(ts)): t += ['(', join(fm('seq', ts, lambda x: TRUE, tg), ','), ')']
        return text(*t)
    def reception(A, g, r):
        ts = C.rc_('recipients', r)
        if not A.b(nonempty(ts)): return ANY
        nm = lambda x: name('lf', x)
        t = [nm(T.index(ts, I(0)))] if A.b(eq(T.length(ts), I(1))) else ['(', join(fm('seq', ts, lambda x: TRUE, nm), ','), ')']
        t.append(symb(A, C.rc_('synchronicity', r), '?'))
        gt = C.rc_('origin_gt_id', r)
        if A.var(gt, OPT) == 'Some': t += ['[', name('gt', fld(gt, OPT, 'Some', 0)), ']']
        return text(*(t + [name('ms', C.rc_('ms_id', r))]))
    o.append(C.go('label of an emission', ea, [g, em], emission, **kw))
    o.append(C.go('label of a reception', ra, [g, rc], reception, **kw))
    TK = C.a('TraceActionKind', 'core::')
    def act(a):
        w = lambda k: text(name('lf', C.field(a, C.TA, 'lf_id')), k, name('ms', C.field(a, C.TA, 'ms_id')))
        return ite(isvar(C.field(a, C.TA, 'act_kind'), TK, 'Emission'), w('!'), w('?'))
    # --- the tree
    root = C.f('interaction_gv_repr')
    rec = recursion(C, root)
    PO = C.a('Position')
    i = C.i()
    new, addn, adde = ext(C, 'GraphVizDiGraph', 'new'), [k for k in (k2 for b in C.P.bodies.values() for k2 in calls(b)) if k.endswith('GraphVizDiGraph>::add_node')], [k for k in (k2 for b in C.P.bodies.values() for k2 in calls(b)) if k.endswith('GraphVizDiGraph>::add_edge')]
    nnew, enew = ext(C, 'GraphVizNode', 'new'), ext(C, 'GraphVizEdge', 'new')
    NS, SH = 'graphviz_dot_builder::item::node::style::GraphvizNodeStyleItem', 'graphviz_dot_builder::item::node::style::GvNodeShape'
    def style(x):
        """the label of a node"""
        if x[0] != 'coll' or any(g[0] != 'one' or g[1][0] != 'adt' for g in x[2]): raise engine.GiveUp('style of a node')
        l = [g[1][3][0] for g in x[2] if g[1][2] == 'Label']
        if len(l) != 1: return ('str', '?%d labels' % len(l))
        return l[0]
    def put(kind, st, eng, ref, *a):
        gr = eng.deep(st, ref)
        if ref[0] != 'ref': raise engine.GiveUp('which graph')
        s = st.copy()
        gr = gr if gr[0] == 'coll' else coll('seq', (('spread', gr),))
        eng.write(s, ref[1], ref[2], T.push('seq', gr, ('tup', (('str', kind),) + a)))
        return s
    h = dict(N.hooks)
    h[new] = lambda eng, st, info, a: [('ret', EMPTYSEQ, st)]
    h[nnew] = lambda eng, st, info, a: [('ret', tup(eng.deep(st, a[0]), style(eng.deep(st, a[1]))), st)]
    h[enew] = lambda eng, st, info, a: [('ret', tup(*[eng.deep(st, x) for x in (a[0], a[2])]), st)]
    def an(eng, st, info, a):
        n = eng.deep(st, a[1])
        return [('ret', UNIT, put('node', st, eng, a[0], *n[1]))]
    def ae(eng, st, info, a):
        n = eng.deep(st, a[1])
        return [('ret', UNIT, put('edge', st, eng, a[0], *n[1]))]
    for k in addn: h[k] = an
    for k in adde: h[k] = ae
    shown = lambda p: text('p', app('show', p))
    if rec is None or C.P.bodies[rec]['locals'][0] != 'std::string::String':
        def und():
            import contract
            r = contract.Result('tree'); r.undecided.append('how the interaction is gone through is not recognized'); return r
        o.append(Obl('tree', und)); return o
    b = C.P.bodies[rec]
    tys = [b['locals'][k + 1].lstrip('&') for k in range(b['argc'])]
    ia, pa, ga = [[k for k, t in enumerate(tys) if t == w or t == 'mut ' + w] for w in (C.INT, PO, 'graphviz_dot_builder::graph::graph::GraphVizDiGraph')]
    if (len(ia), len(pa), len(ga), len(tys)) != (1, 1, 1, 4): raise resolve.Missing('how an interaction is drawn as a term')
    def rech(eng, st, info, a):
        p = eng.deep(st, a[pa[0]])
        return [('ret', shown(p), put('term', st, eng, a[ga[0]], eng.deep(st, a[ia[0]]), p))]
    pos = sym('position', PO)
    gr = sym('graph', '')
    args = [('ref', GRAPH, ()) if k in ga else i if k in ia else pos if k in pa else g for k in range(len(tys))]
    sh = lambda x: app('show', x)
    def own(A):
        v = A.var(pos, PO); f = lambda j: fld(pos, PO, v, j)
        if v == 'Left': return text('p1', sh(f(0)))
        if v == 'Right': return text('p2', sh(f(0)))
        if v == 'Both': return text('p(1', sh(f(0)), ',2', sh(f(1)), ')')
        return text('ps', sh(fld(f(0), OPT, 'Some', 0))) if A.var(f(0), OPT) == 'Some' else ('str', 'p')
    node = lambda me, l: ('one', tup(('str', 'node'), me, l if isinstance(l, tuple) else ('str', l)))
    at = lambda s: mk_adt(PO, s, [pos])
    sub = lambda me, x, s: (('one', tup(('str', 'term'), x, at(s))), ('one', tup(('str', 'edge'), me, shown(at(s)))))
    def tree(A, *a):
        me = own(A)
        v = A.var(i, C.INT); f = C.fields(i, v)
        if v == 'Empty': gs = (node(me, 'o'),)
        elif v == 'Emission': gs = (node(me, C.call(ea, g, f[0])),)
        elif v == 'Reception': gs = (node(me, C.call(ra, g, f[0])),)
        elif v == 'Loop': gs = (node(me, LOOPS[A.var(f[0], C.LK)]),) + sub(me, f[1], 'Left')
        else:
            l = v.lower()
            if v == 'CoReg': l = text('coreg(', join(fm('seq', f[0], lambda x: TRUE, lambda x: name('lf', x)), ','), ')')
            if v == 'Sync': l = text('sync{', join(fm('seq', f[0], lambda x: TRUE, act), ','), '}')
            gs = (node(me, l),) + sub(me, f[-2], 'Left') + sub(me, f[-1], 'Right')
        return me, {GRAPH: coll('seq', (('spread', gr),) + gs)}
    h2 = dict(h); h2[rec] = rech
    def two(A, t):
        """a graph keeps its nodes and its edges apart"""
        if t[0] != 'coll' or t[1] != 'seq' or not all(x[0] == 'spread' or x[0] == 'one' and x[1][0] == 'tup' for x in t[2]): return t
        kind = lambda x: x[1][1][0][1] if x[0] == 'one' else ''
        return tup(coll('seq', tuple(x for x in t[2] if kind(x) != 'edge')), coll('seq', tuple(x for x in t[2] if kind(x) != 'node')))
    o.append(C.go('tree', rec, args, tree, mem={GRAPH: gr}, hooks=h2, more=kw['more'] + [ea, ra], panics='explicit', canon=two))
    eps = mk_adt(PO, 'Epsilon', [none()])
    h3 = dict(h2)
    o.append(C.go('whole tree', root, [g, i], lambda A, g, i: coll('seq', (('one', tup(('str', 'term'), i, eps)),)), hooks=h3, panics='explicit'))
    # --- the file, and which drawing is made
    dt, ds, di = C.f('draw_int_as_term'), C.f('draw_int_as_sd'), C.f('draw_interaction')
    dot = ext(C, 'GraphVizDiGraph>', 'to_dot_string')
    tmp, par, out = sym('temp_folder', 'str'), sym('parent_folder', 'str'), sym('output_file_name', 'str')
    p = path_of(tmp, text(out, '.dot'))
    RP = C.a('InteractionGraphicalRepresentation')
    rp = sym('repr', RP)
    hd = dict(N.hooks)
    hd[root] = lambda eng, st, info, a: [('ret', app('tree', eng.deep(st, a[1])), st)]
    hd[dot] = lambda eng, st, info, a: [('ret', app('as dot', eng.deep(st, a[0])), st)]
    o.append(C.go('file of a tree', dt, [g, i, tmp, par, out], lambda A, *a: (ANY, {FILES: files(('mkdir', tmp), ('create', p), ('write', p, app('as dot', app('tree', i))))}), mem={FILES: EMPTY}, hooks=hd, panics='explicit'))
    def drawn(nm):
        return lambda eng, st, info, a: [('ret', UNIT, models.event(st, nm, *[eng.deep(st, x) for x in a]))]
    def which(A, *a):
        if A.var(rp, RP) == 'AsTerm': return ANY, {FILES: files(('as a term', g, i, tmp, par, out))}
        return ANY, {FILES: files(('as a sequence diagram', g, i, par, out))}
    o.append(C.go('which drawing', di, [g, i, rp, tmp, par, out], which, mem={FILES: EMPTY}, hooks={dt: drawn('as a term'), ds: drawn('as a sequence diagram')}, more=[dt, ds], panics='explicit'))
    return o
EMPTYSEQ = coll('seq', ())

NODE, CLUSTER = 'graphviz_dot_builder::item::node::node::GraphVizNode', 'graphviz_dot_builder::item::cluster::GraphVizCluster'

def keys_ending(C, suffix):
    return sorted({k for b in C.P.bodies.values() for k in calls(b) if k.endswith(suffix)})

class Pictures:
    """what the drawer of a process makes: nodes and clusters of a graph, and the images that they show"""
    CONFS = {'ana': 'AnalysisConfig', 'explo': 'ExplorationConfig', 'canon': 'CanonizationConfig'}
    def __init__(self, C):
        self.C = C
        self.N = Names(C)
        self.h = dict(self.N.hooks)
        self.draws = {n: C.f(n) for n in ('draw_interaction', 'draw_multitrace', 'draw_firing_simple', 'draw_firing_analysis', 'draw_hiding', 'draw_transformation', 'draw_string_label')}
        def drawn(n):
            def h(eng, st, info, a): return [('ret', UNIT, models.event(st, n, *[eng.deep(st, x) for x in a]))]
            return h
        for n, k in self.draws.items(): self.h[k] = drawn(n)
        self.h[ext(C, 'GraphVizNode', 'new')] = lambda eng, st, info, a: [('ret', mk_adt(NODE, 'GraphVizNode', [eng.deep(st, a[0]), eng.deep(st, a[1])]), st)]
        self.h[ext(C, 'GraphVizCluster', 'new')] = lambda eng, st, info, a: [('ret', mk_adt(CLUSTER, 'GraphVizCluster', [eng.deep(st, x) for x in a]), st)]
        def add(eng, st, info, a):
            c = eng.deep(st, a[0])
            if a[0][0] != 'ref' or c[0] != 'adt': raise engine.GiveUp('which cluster')
            s = st.copy()
            f = list(c[3]); f[2] = T.push('seq', f[2], eng.deep(st, a[1]))
            eng.write(s, a[0][1], a[0][2], mk_adt(CLUSTER, 'GraphVizCluster', f))
            return [('ret', UNIT, s)]
        for k in keys_ending(C, 'GraphVizCluster as graphviz_dot_builder::traits::DotBuildable>::add_node'): self.h[k] = add
        for n in ('std::ffi::OsStr::to_str', 'std::path::Path::to_str'): self.h[n] = lambda eng, st, info, a: [('ret', some(eng.deep(st, a[0])), st)]
        ID = C.a('InteractionProcessDrawer')
        self.ID = ID
        self.me = sym('self', ID)
        self.sd, self.tt, self.tmp = [C.field(self.me, ID, n) for n in ('int_repr_sd', 'int_repr_tt', 'temp_folder')]
    def method(self, conf, name):
        for im in self.C.P.impls:
            t = im['trait'] or ''
            if im['self'].split('<')[0].endswith('InteractionProcessDrawer') and t.split('<')[0].endswith('GraphVizProcessDrawer'):
                for it in im['items']:
                    if it.split('::')[-1] == name and '::%s>' % self.CONFS[conf] in it and it in self.C.P.bodies: return it
        raise resolve.Missing('%s of the drawer of %s' % (name, self.CONFS[conf]))
    def canon(self, A, v):
        """of a style, what it shows; of a cluster, its nodes in any order"""
        def style(x, what):
            if x[0] != 'coll' or any(g[0] != 'one' or g[1][0] != 'adt' for g in x[2]): raise engine.GiveUp('style')
            return tuple(g[1][3][0] for g in x[2] if g[1][2] == what)
        def go(t):
            if not isinstance(t, tuple) or not t: return t
            if t[0] == 'adt' and t[1] == NODE:
                im, lb = style(t[3][1], 'Image'), style(t[3][1], 'Label')
                return tup(('str', 'node'), go(t[3][0]), tup(*[go(x) for x in im]), tup(*[x for x in lb if x != ('str', '')]) if not im else UNIT)
            if t[0] == 'app' and 'setfield' in t[1]:          # the style of a cluster is free
                x = go(t[2][0])
                if x[0] == 'tup' and x[1][0] == ('str', 'cluster') and I(1) in t[2] + t[3:]: return x
            if t[0] == 'adt' and t[1] == CLUSTER:
                if t[3][2][0] != 'coll' or any(g[0] != 'one' for g in t[3][2][2]): raise engine.GiveUp('nodes of a cluster')
                ns = sorted((go(g[1]) for g in t[3][2][2]), key=repr)
                return tup(('str', 'cluster'), go(t[3][0]), tup(*ns))
            return tuple(go(x) if isinstance(x, tuple) else x for x in t)
        return go(v)
    # what is expected, in the same form
    def node(self, i, img=None, label=None): return tup(('str', 'node'), i, tup(img) if img is not None else UNIT, tup(('str', label)) if label else UNIT)
    def cluster(self, i, *ns): return tup(('str', 'cluster'), i, tup(*sorted(ns, key=repr)))
    def png(self, name, folder=None): return path_of(folder or self.tmp, text(name, '.png'))

def words(src, elem):
    """the texts elem(x), for each x in turn"""
    x = T.fresh()
    body = T.push_leaf(lambda l: ('gens', tuple(('one', y) for y in l[1])), T.dt_apply(lambda *l: UNDEF if UNDEF in l else ('tup', l), *[lift(y if isinstance(y, tuple) else ('str', y)) for y in elem(x)]))
    return coll('seq', mk_for_over(x, src, 'seq', body))

def line(*parts):
    g = ()
    for p in parts: g += (('one', ('str', p)),) if isinstance(p, str) else p[2] if p[0] == 'coll' and any(x[0] == 'for' for x in p[2]) else (('one', p),)
    return coll('seq', g)

def flat(A, v):
    """a line is the text that its parts make"""
    def gs_of(c): return c[2] if c[0] == 'coll' and c[1] == 'seq' else (('spread', c),)
    def gens(gs):
        out = []
        for g in gs:
            if g[0] == 'one':
                t = g[1]
                if t[0] == 'coll' and t[1] == 'seq': out += gs_of(gens(t[2]))
                else: out.append(('spread', go(t)))
            elif g[0] == 'spread' and g[1][0] == 'fold':
                j = folded(g[1])
                out.append(('spread', go(g[1]) if j is None else app('join', j[0], j[1])))
            elif g[0] == 'for':
                src, body = g[2], go(g[3])
                if all(l == ('gens', ()) for l in T.dt_leaves(body)): continue
                while src[0] == 'app' and src[1] == 'sorted': src = src[2][0]
                j = joined(g[1], src, body)
                out.append(g[:2] + (src, body) if j is None else ('spread', app('join', coll('seq', (g[:2] + (src, j[0]),)), j[1])))
            else: out.append((g[0], go(g[1])) + g[2:])
        return models.merge_str(coll('seq', tuple(out)))
    def folded(t):
        """every element but the first one is preceded by the same text"""
        _, h, src, init, body = t
        if init != EMPTY or body[0] != 'ite' or body[1] != ('ge', ((app('len', T.ACC), 1),), 1): return None
        kids = dict(body[2])
        first, more = kids[False], kids[True]
        if first[0] != 'coll' or more[0] != 'coll' or not any(g[0] == 'one' for g in first[2]): return None
        k = len(first[2])
        if more[2][0] != ('spread', T.ACC) or k and more[2][-k:] != first[2] or T.mentions(first, T.ACC): return None
        seps = more[2][1:-k]
        if not seps or T.mentions(coll('seq', seps), ('bv', h)) or T.mentions(coll('seq', seps), T.ACC): return None
        while src[0] == 'app' and src[1] == 'sorted': src = src[2][0]
        return coll('seq', (('for', h, src, ('gens', gs_of(gens(first[2])))),)), text(gens(seps))
    def joined(x, src, body):
        """every element but the last one is followed by the same text"""
        here = ('idx', ('bv', x))
        if body[0] != 'ite' or body[1][0] != 'ge': return None
        if body[1] == ('ge', ((here, 1),), 1):
            # every element but the first one is preceded by the same text
            kids = dict(body[2])
            first, more = kids[False], kids[True]
            if first[0] != 'gens' or more[0] != 'gens': return None
            pa, pb = gs_of(gens(first[1])), gs_of(gens(more[1]))
            n = len(pb) - len(pa)
            if n >= 1 and pa == pb[n:] and not T.mentions(coll('seq', pb[:n]), ('bv', x)): return first, text(coll('seq', pb[:n]))
            if pa and n == 0 and pb[0][0] == 'spread' and pb[0][1][0] == 'str' and pa[0][0] == 'spread' and pa[0][1][0] == 'str' and pa[1:] == pb[1:] and pb[0][1][1].endswith(pa[0][1][1]):
                return first, ('str', pb[0][1][1][:-len(pa[0][1][1])])
            return None
        ls = [l for l in T.dt_leaves(T.length(src)) if l != I(0)]  # it is not empty: it has an element
        if len(ls) != 1: return None
        left = T.ge0(sub(sub(ls[0], here), I(2)))                # there is another one after it
        if left[0] != 'ite' or left[1] != body[1]: return None
        kids = dict(body[2])
        yes = [v for v, c in left[2] if c == TRUE]
        if len(yes) != 1: return None
        more, last = kids[yes[0]], kids[not yes[0]]
        if last[0] != 'gens' or more[0] != 'gens': return None
        a, b = text(coll('seq', last[1])), text(coll('seq', more[1]))
        pa, pb = gs_of(a), gs_of(b)
        if pb[:len(pa)] == pa and len(pb) == len(pa) + 1 and pb[-1][0] == 'spread': return last, pb[-1][1]
        return None
    def go(t):
        if not isinstance(t, tuple) or not t: return t
        if t[0:2] == ('app', 'sorted'): return go(t[2][0])
        if t[0] == 'gens':
            return ('gens', gs_of(gens(t[1])))
        return tuple(go(x) if isinstance(x, tuple) else x for x in t)
    def image(t):
        if not isinstance(t, tuple) or not t: return t
        if t[0] == 'tup' and t[1] and t[1][0] == ('str', 'image'):
            ls = t[1][2]
            if ls[0] == 'coll' and ls[1] == 'seq':
                ls = coll('seq', tuple(('one', gens2(g[1])) if g[0] == 'one' else g for g in ls[2]))
            return tup(t[1][0], t[1][1], ls)
        return tuple(image(x) if isinstance(x, tuple) else x for x in t)
    def gens2(l):
        if l[0] == 'coll' and l[1] == 'seq':
            c = gens(l[2])
            return text(c)
        return text(l)
    return image(v)

@prop('P35')
def p35(C):
    """pictures of processes"""
    o = []
    X = Pictures(C)
    me, sd, tt, tmp = X.me, X.sd, X.tt, X.tmp
    U = 'u32'
    sid, org, tgt = sym('state_id', U), sym('origin_id', U), sym('target_id', U)
    num = lambda p, x: text(p, app('show', x))
    n_, a_ = num('n', sid), num('a', sid)
    INT = C.INT
    RP = C.a('InteractionGraphicalRepresentation')
    kw = dict(hooks=X.h, canon=X.canon, mem={FILES: EMPTY}, panics='explicit', more=[])
    gen = lambda ctx, ty: C.field(ctx, ty, 'gen_ctx')
    def pic(A, g, i, name, how):
        """a picture of an interaction; nothing is drawn for the empty one"""
        if A.var(i, INT) == 'Empty': return X.node(name), ()
        return X.node(name, X.png(name)), (('draw_interaction', g, i, mk_adt(RP, how, []), ('str', 'temp'), tmp, name),)
    def both(A, g, i, extra=()):
        ns, ev = [X.node(a_)] + [e[0] for e in extra], [x for e in extra for x in e[1]]
        if A.b(sd): n, e = pic(A, g, i, num('isd', sid), 'AsSequenceDiagram'); ns.append(n); ev += e
        if A.b(tt): n, e = pic(A, g, i, num('itt', sid), 'AsTerm'); ns.append(n); ev += e
        return X.cluster(n_, *ns), {FILES: files(*ev)}
    # --- exploration and canonization: the nodes
    for conf, ctxt, nodet, part in (('explo', 'ExplorationContext', 'ExplorationNodeKind', 'ExplorationParameterization'), ('canon', 'CanonizationContext', 'CanonizationNodeKind', 'CanonizationParameterization')):
        CT, NT = C.a(ctxt), C.a(nodet)
        ctx, nd, par = sym('context', CT), sym('node', NT), sym('param', C.a(part))
        i, g = C.field(nd, NT, 'interaction'), gen(ctx, CT)
        o.append(C.go('%s: cluster of a node' % conf, X.method(conf, 'make_node_gvitem_as_gvcluster'), [me, ctx, par, sid, nd], lambda A, *a, i=i, g=g: both(A, g, i), **kw))
        if conf == 'explo':
            def one(A, *a, i=i, g=g):
                s, t = A.b(sd), A.b(tt)
                if s == t: return (X.node(n_) if not s else ANY), {FILES: EMPTY}
                n, e = pic(A, g, i, n_, 'AsSequenceDiagram' if s else 'AsTerm')
                return n, {FILES: files(*e)}
            o.append(C.go('explo: node', X.method(conf, 'make_node_gvitem_as_gvnode'), [me, ctx, par, sid, nd], one, **kw))
    # --- analysis: a node shows its multi-trace, and its interaction as asked
    AC, AN, AP, AF, AK = C.a('AnalysisContext'), C.a('AnalysisNodeKind'), C.a('AnalysisParameterization'), C.a('MultiTraceAnalysisFlags'), C.a('AnalysisKind')
    ctx, nd, par = sym('context', AC), sym('node', AN), sym('param', AP)
    g, i, co, mu, fl = gen(ctx, AC), C.field(nd, AN, 'interaction'), C.field(ctx, AC, 'co_localizations'), C.field(ctx, AC, 'multi_trace'), C.field(nd, AN, 'flags')
    crits = C.m('AnalysisKind', 'get_sim_crits')
    kind = C.field(par, AP, 'ana_kind')
    hk = dict(X.h)
    hk[crits] = lambda eng, st, info, a: [('ret', tup(*[app('criterion %d' % j, eng.deep(st, a[0])) for j in range(3)]), st)]
    kwa = dict(kw, hooks=hk)
    def trace(name): return X.node(name, X.png(name)), (('draw_multitrace', g, co, mu, fl) + tuple(app('criterion %d' % j, kind) for j in range(3)) + (tmp, name),)
    def anode(A, *a):
        n, e = trace(n_)
        return n, {FILES: files(*e)}
    o.append(C.go('ana: node', X.method('ana', 'make_node_gvitem_as_gvnode'), [me, ctx, par, sid, nd], anode, **kwa))
    o.append(C.go('ana: cluster of a node', X.method('ana', 'make_node_gvitem_as_gvcluster'), [me, ctx, par, sid, nd], lambda A, *a: both(A, g, i, extra=(trace(num('mu', sid)),)), **kwa))
    # --- steps
    FE = C.a('FrontierElement')
    steps = lambda *x: text('s_', app('show', org), '_', app('show', tgt), *x)
    fpos, fact = lambda e: C.field(e, FE, 'position'), lambda e: C.field(e, FE, 'target_actions')
    def step(name, *ev): return X.node(name, X.png(name)), {FILES: files(ev)}
    dbg = lambda p: app('debug', p)
    def st_ana(A, *a):
        SK = C.a('AnalysisStepKind'); s = a[-1]
        if A.var(s, SK) == 'EliminateNoLongerObserved': return step(steps(), 'draw_hiding', X.png(steps()), g, fld(s, SK, 'EliminateNoLongerObserved', 0))
        e, cs, sm = [fld(s, SK, 'Execute', j) for j in range(3)]
        n = steps('_', dbg(fpos(e)))
        return step(n, 'draw_firing_analysis', X.png(n), g, fpos(e), fact(e), co, cs, sm)
    o.append(C.go('ana: step', X.method('ana', 'make_step_gvnode'), [me, ctx, par, org, tgt, sym('step', C.a('AnalysisStepKind'))], st_ana, **kw))
    def st_explo(A, *a):
        SK = C.a('ExplorationStepKind'); s = a[-1]
        e = fld(s, SK, A.var(s, SK), 0)
        n = steps('_', dbg(fpos(e)))
        return step(n, 'draw_firing_simple', X.png(n), gen(a[1], C.a('ExplorationContext')), fpos(e), fact(e))
    o.append(C.go('explo: step', X.method('explo', 'make_step_gvnode'), [me, sym('context', C.a('ExplorationContext')), sym('param', C.a('ExplorationParameterization')), org, tgt, sym('step', C.a('ExplorationStepKind'))], st_explo, **kw))
    def st_canon(A, *a):
        SK, TR = C.a('CanonizationStepKind'), C.a('InteractionTransformationResult'); s = a[-1]
        if A.var(s, SK) == 'GoToNextPhase': return step(steps(), 'draw_string_label', X.png(steps()), ('str', 'go to next phase'))
        t = fld(s, SK, 'Transform', 0); k, p = C.field(t, TR, 'kind'), C.field(t, TR, 'position')
        n = steps('_', dbg(k), '_', dbg(p))
        return step(n, 'draw_transformation', X.png(n), k, p)
    o.append(C.go('canon: step', X.method('canon', 'make_step_gvnode'), [me, sym('context', C.a('CanonizationContext')), sym('param', C.a('CanonizationParameterization')), org, tgt, sym('step', C.a('CanonizationStepKind'))], st_canon, **kw))
    # --- the name of a step: positions have different texts, made of letters and digits only
    PO = C.a('Position')
    pos, f = sym('position', PO), sym('written', 'std::fmt::Formatter')
    F = ('p', 'f')
    def name(A, *a):
        v = A.var(pos, PO); x = lambda j: fld(pos, PO, v, j)
        if v == 'Epsilon':
            if A.var(x(0), OPT) == 'None': return ANY, {F: text(f, 'o')}
            return ANY, {F: text(f, 's', app('show', fld(x(0), OPT, 'Some', 0)))}
        if v == 'Both': return ANY, {F: text(f, 'H1', dbg(x(0)), '_2', dbg(x(1)), 'H')}
        return ANY, {F: text(f, '1' if v == 'Left' else '2', dbg(x(0)))}
    PD = C.R.tm('Position', 'Debug', 'fmt')
    def inner(eng, st, info, a):
        if a[1][0] != 'ref': raise engine.GiveUp('where a position is written')
        s2 = st.copy(); eng.write(s2, a[1][1], a[1][2], text(eng.deep(st, a[1]), dbg(eng.deep(st, a[0]))))
        return [('ret', mk_adt(RES, 'Ok', [UNIT]), s2)]
    o.append(C.go('name of a position', PD, [pos, ('ref', F, ())], name, mem={F: f}, hooks={PD: inner}))
    # --- which of the two is made
    FM = 'graph_process_manager_loggers::graphviz::format::GraphVizLoggerNodeFormat'
    for conf, need in (('ana', lambda A: A.b(sd) or A.b(tt)), ('explo', lambda A: A.b(sd) and A.b(tt)), ('canon', lambda A: True)):
        def fmt(A, *a, need=need): return mk_adt(FM, 'AnchoredCluster', []) if need(A) else ANY
        o.append(C.go('%s: cluster or node' % conf, X.method(conf, 'get_node_format'), [me], fmt, panics='explicit'))
    # --- identifiers
    for nm, want in (('get_anchor_id', a_), ('get_node_id', n_), ('get_verdict_id', num('v', sid)), ('get_static_analysis_ids', tup(num('stat', sid), num('stat_anchor', sid)))):
        for conf in ('ana', 'explo', 'canon')[:3 if 'node' in nm or 'anchor' in nm else 2]:
            o.append(C.go('%s: %s' % (conf, nm), X.method(conf, nm), [me, sid], lambda A, *a, want=want: want, panics='explicit'))
    for conf in ('ana', 'explo', 'canon'):
        o.append(C.go('%s: folder of images' % conf, X.method(conf, 'get_temp_folder'), [me], lambda A, *a: tmp, panics='explicit'))
    # --- the sub-analysis that settles a verdict
    PF, LV = C.a('AnalysisStaticLocalVerdictAnalysisProof'), C.a('AnalysisLocalVerdict')
    pf, lv = sym('proof', PF), sym('verdict', LV)
    loc = C.f('perform_local_analysis')
    hs = dict(kw['hooks'])
    hs[ext(C, 'GenericGraphVizLogger', 'new')] = lambda eng, st, info, a: [('ret', app('logger', *[eng.deep(st, x) for x in a]), st)]
    def local(eng, st, info, a):
        v = [eng.deep(st, x) for x in a]
        del v[3]                                             # por makes no difference for one component
        return [('ret', sym('local verdict', LV), models.event(st, 'local analysis', *v))]
    hs[loc] = local
    SI, SA = num('stat', sid), num('stat_anchor', sid)
    LA = C.a('LocalAnalysisParameterization')
    def static(A, *a):
        lp = C.field(par, AP, 'locana')
        if A.var(lp, OPT) == 'None': return PANIC
        q = lambda n: C.field(pf, PF, n)
        lg = app('logger', tup(sd, tt), ('str', 'png'), tup(('str', '.'), SI))
        return X.cluster(SI, X.node(SA, path_of(('str', '.'), text(SI, '.png')))), {FILES: files(('local analysis', g, q('local_coloc'), kind, C.field(fld(lp, OPT, 'Some', 0), LA, 'max_look_ahead_depth'), q('local_interaction'), q('local_multi_trace'), q('local_flags'), coll('seq', (('one', lg),))))}
    def lcanon(A, v):
        v = X.canon(A, v)
        def go(t):
            if not isinstance(t, tuple): return t
            if t[0:2] == ('app', 'logger') and len(t[2]) == 6:
                d = t[2][0]
                if d[0] != 'adt' or t[2][1][0] != 'adt': raise engine.GiveUp('logger of a sub-analysis')
                return app('logger', tup(C.field(d, X.ID, 'int_repr_sd'), C.field(d, X.ID, 'int_repr_tt')), ('str', t[2][1][2]), tup(t[2][4], t[2][5]))
            return tuple(go(x) if isinstance(x, tuple) else x for x in t)
        return go(v)
    o.append(C.go('ana: sub-analysis', X.method('ana', 'make_static_analysis_as_gvcluster'), [me, ctx, par, sid, lv, pf], static, hooks=hs, canon=lcanon, mem={FILES: EMPTY}, panics='ignore'))
    # --- what the images of the steps say
    img = C.f('new_image_with_colored_text')
    ht = dict(X.N.hooks)
    ht[img] = lambda eng, st, info, a: [('ret', UNIT, models.event(st, 'image', eng.deep(st, a[0]), eng.deep(st, a[2])))]
    ht[ext(C, 'TextToPrint', 'new')] = lambda eng, st, info, a: [('ret', eng.deep(st, a[0]), st)]
    pa, g0 = sym('path', 'std::path::Path'), X.N.g
    name = X.N.name
    kt = dict(hooks=ht, mem={FILES: EMPTY}, panics='ignore', more=list(X.N.names.values()), canon=flat)
    D = X.draws
    lab, tk, ps = sym('label', 'str'), sym('kind', C.a('InteractionTransformationKind')), sym('position', PO)
    lines = lambda *l: (ANY, {FILES: files(('image', pa, coll('seq', tuple(('one', x) for x in l))))})
    o.append(C.go('text of a label', D['draw_string_label'], [pa, lab], lambda A, *a: lines(line(lab)), **kt))
    o.append(C.go('text of a transformation', D['draw_transformation'], [pa, tk, ps], lambda A, *a: lines(line(tk, '@', where(A, ps))), **kt))
    def where(A, p):
        v = A.var(p, PO); x = lambda j: fld(p, PO, v, j)
        if v == 'Epsilon': return text('s', app('show', fld(x(0), OPT, 'Some', 0))) if A.var(x(0), OPT) == 'Some' else ('str', '')
        if v == 'Both': return text('(1', app('show', x(0)), ',2', app('show', x(1)), ')')
        return text('1' if v == 'Left' else '2', app('show', x(0)))
    TK = C.a('TraceActionKind', 'core::')
    ta = lambda a, n: C.field(a, C.TA, n)
    def act(a): return [name('lf', ta(a, 'lf_id')), ite(isvar(ta(a, 'act_kind'), TK, 'Emission'), ('str', '!'), ('str', '?')), name('ms', ta(a, 'ms_id')), ' ']
    hid = sym('hidden', 'std::collections::HashSet<usize>')
    o.append(C.go('text of an elimination', D['draw_hiding'], [pa, g0, hid], lambda A, *a: lines(line('eliminate lifelines [', join(fm('seq', hid, lambda x: TRUE, lambda x: name('lf', x)), ','), ']')), **kt))
    acts = sym('actions', 'std::collections::BTreeSet<%s>' % C.TA)
    o.append(C.go('text of an execution', D['draw_firing_simple'], [pa, g0, ps, acts], lambda A, *a: lines(line(words(acts, act), '@', where(A, ps))), **kt))
    cz, cs, sm = sym('colocalizations', C.a('CoLocalizations')), sym('consumed', 'std::collections::HashSet<usize>'), sym('simulated', 'std::collections::HashMap<usize,%s>' % C.a('SimulationStepKind'))
    SS = C.a('SimulationStepKind')
    CZ = C.a('CoLocalizations')
    sepname = lambda lfs: join(fm('seq', lfs, lambda x: TRUE, lambda x: name('lf', x)), ',')
    names = lambda k: sepname(T.index(C.field(cz, CZ, 'locs_lf_ids'), k))
    def analysed(A, *a):
        l = line(words(acts, act), '@', where(A, ps))
        if not A.b(nonempty(cs)) and not A.b(nonempty(sm)): return lines(l)
        return lines(line(words(cs, lambda k: ['C[', names(k), '] ']), words(sm, lambda e: ['S[', names(T.tfld(e, 0)), ']', ite(isvar(T.tfld(e, 1), SS, 'BeforeStart'), ('str', '↑'), ('str', '↓')), ' '])), l)
    o.append(C.go('text of an analysed execution', D['draw_firing_analysis'], [pa, g0, ps, acts, cz, cs, sm], analysed, **kt))
    # --- what the image of a multi-trace says: of each component, what remains of it and what was consumed and simulated
    CF = C.a('TraceAnalysisFlags')
    mt, fs = sym('multi_trace', ''), sym('flags', AF)
    sim, cl, ca = [sym(x, 'bool') for x in ('simulation', 'crit_loop', 'crit_act')]
    num_ = lambda n: app('show', n)
    def bare(A, v):
        """white space is free"""
        def lit(t):
            if not isinstance(t, tuple) or not t: return t
            if t[0] == 'str': return ('str', ''.join(t[1].split()))
            return tuple(lit(x) if isinstance(x, tuple) else x for x in t)
        def ln(l):
            l = lit(l)
            l = flat(A, tup(('str', 'image'), UNIT, coll('seq', (('one', l),))))[1][2]
            return l
        def body(t):
            if t[0] == 'gens': return ('gens', tuple(('one', ln(g[1])) if g[0] == 'one' else g for g in t[1]))
            if t[0] == 'ite': return ('ite', t[1], tuple((k, body(x)) for k, x in t[2]))
            return t
        if v[0] != 'coll': return v
        return coll('seq', tuple(('one', ln(g[1])) if g[0] == 'one' else g[:3] + (body(g[3]),) if g[0] == 'for' else g for g in v[2]))
    # the text of the actions that happen at once
    TO = C.f('diagram_repr_trace_actions')
    kt2 = dict(kt, canon=bare, hooks=dict(ht))
    kt2['hooks'][TO] = lambda eng, st, info, a: [('ret', coll('seq', (('spread', app('actions_text', eng.deep(st, a[0]), eng.deep(st, a[2]))),)), st)]
    br = sym('brackets', 'bool')
    def at_once(A, *a):
        one = lambda x: text(name('lf', ta(x, 'lf_id')), ite(isvar(ta(x, 'act_kind'), TK, 'Emission'), ('str', '!'), ('str', '?')), name('ms', ta(x, 'ms_id')))
        if A.b(br) or A.b(T.lt(I(1), T.length(acts))): return text('{', join(words(acts, lambda x: act(x)[:3]), ','), '}')
        if A.b(nonempty(acts)): return one(app('last', acts))
        return text()
    def gs_of_(t): return t[1] if t[0] == 'gens' else (('spread', t),)
    def spelt(A, v):
        if v[0:2] == ('app', 'last') and v[2][0][0] == 'coll' and len(v[2][0][2]) == 1 and v[2][0][2][0][0] == 'for':
            # the last one of what is made of each element
            _, h, src, body = v[2][0][2][0]
            while src[0:2] == ('app', 'sorted'): src = src[2][0]
            if all(l[0] == 'gens' and len(l[1]) == 1 and l[1][0][0] == 'one' for l in T.dt_leaves(body)):
                v = A.tree(T.push_leaf(lambda l: l[1][0][1], T.open_(h, body, app('last', src))))
        if v[0] == 'coll' and len(v[2]) == 1 and v[2][0][0] == 'for':
            # what is made of the elements when there is one
            _, h, src, body = v[2][0]
            while src[0:2] == ('app', 'sorted'): src = src[2][0]
            if src[0] == 'sym' and A.b(nonempty(src)) and not A.b(T.lt(I(1), T.length(src))):
                v = coll('seq', gs_of_(A.tree(T.open_(h, body, app('last', src)))))
        return flat(A, tup(('str', 'image'), UNIT, coll('seq', (('one', v),))))[1][2]
    o.append(C.go('text of simultaneous actions', TO, [acts, g0, br], at_once, **dict(kt, canon=spelt)))
    CT = lambda f, n: C.field(f, CF, n)
    pos_ = lambda n: T.lt(I(0), n)
    def component(x):
        i = ('idx', x)
        tr, fl = T.index(mt, i), T.index(C.field(fs, AF, 'canals'), i)
        used, sb, sa, dl = CT(fl, 'consumed'), CT(fl, 'simulated_before'), CT(fl, 'simulated_after'), CT(fl, 'dirty_local_counter')
        sepnames = sepname(x)
        rest = app('slice', tr, used, T.length(tr))
        y = T.fresh()
        todo = app('join', coll('seq', mk_for_over(y, rest, 'seq', ('gens', (('spread', app('actions_text', y, FALSE)),)))), ('str', '.'))
        def pick(cs, f, got=()):
            if len(got) == len(cs): return f(*got)
            return ite(cs[len(got)], pick(cs, f, got + (True,)), pick(cs, f, got + (False,)))
        def two(*ls): return ('gens', tuple(('one', text(*l)) for l in ls))
        def told(gone, before, more, any_, all_, after, dirty, dirtier):
            sim_ = ['♧', num_(sb)] if before else []
            if gone: return two(['[', sepnames, ']'] + sim_ + ['⚐', num_(used), '⚑non-obs'], [])
            l2 = list(sim_)
            if any_ or after:
                l2 += ['⚐', num_(used)]
                if all_: l2 += ['⚑'] + ([num_(sa), '♣'] if after else [])
            if dirty: l2 += ['*'] + ([num_(dl)] if dirtier else [])
            return two(['[', sepnames, ']←', todo if more else 'ε'], l2)
        return pick([CT(fl, 'no_longer_observed'), pos_(sb), pos_(sub(T.length(tr), used)), pos_(used), eq(T.length(tr), used), pos_(sa), pos_(dl), T.lt(I(1), dl)], told)
    def traces(A, *a):
        x = T.fresh()
        out = mk_for_over(x, C.field(cz, CZ, 'locs_lf_ids'), 'seq', component(x))
        if A.b(sim):
            if not A.b(cl) and not A.b(ca): l = ['⌕*']
            else:
                l = ['⌕']
                if A.b(cl): l += ['L', num_(C.field(fs, AF, 'rem_loop_in_sim'))]
                if A.b(ca): l += ['A', num_(C.field(fs, AF, 'rem_act_in_sim'))]
            out += (('one', text(*l)),)
        return coll('seq', out)
    o.append(C.go('text of a multi-trace', C.f('extract_texts_on_multi_trace'), [g0, cz, mt, fs, sim, cl, ca], traces, **kt2))
    # --- its image, where it is asked
    EX = C.f('extract_texts_on_multi_trace')
    hm = dict(ht); hm[EX] = lambda eng, st, info, a: [('ret', app('texts', *[eng.deep(st, x) for x in a]), st)]
    fold, nam = sym('folder', 'std::string::String'), sym('name', 'std::string::String')
    def drawn(A, *a): return ANY, {FILES: files(('image', path_of(fold, text(nam, '.png')), app('texts', g0, cz, mt, fs, sim, cl, ca)))}
    o.append(C.go('image of a multi-trace', D['draw_multitrace'], [g0, cz, mt, fs, sim, cl, ca, fold, nam], drawn, **dict(kt, hooks=hm, canon=None)))
    # --- verdicts are told apart by their colour
    for conf, ty in (('ana', 'AnalysisLocalVerdict'), ('explo', 'ExplorationLocalVerdict')):
        o.append(colours(C, X.method(conf, 'get_verdict_color'), conf, me, sym('verdict', C.a(ty)), C.a(ty)))
    return o

def colours(C, key, conf, me, v, ty):
    def run():
        import contract
        r = contract.Result('%s: colours of verdicts' % conf)
        b = C.P.bodies[key]
        r.fn = key; r.where = '%s:%d' % (b['file'], b['line'])
        try:
            eng = engine.Engine(C.P, set()); eng.delegates = contract.Delegates(C.P)
            out = eng.analyse(key, [me, v], None, None)
        except engine.GiveUp as e:
            r.undecided.append('%s: analysis stopped (%s)' % (key, e)); return r
        r.functions = sorted(eng.stats.functions)
        seen = {}
        for k, val, st in out:
            r.outcomes += 1
            if k == 'panic': r.violations.append('%s: no colour for a verdict' % key); continue
            for n in st.pc.known(T.disc_atom(v, ty)[1]):
                r.leaves += 1
                if val[0] != 'adt': r.undecided.append('%s: colour of %s' % (key, n)); continue
                if seen.setdefault(val[2:], n) != n: r.violations.append('%s: the verdicts %s and %s are drawn with the same colour %s' % (key, seen[val[2:]], n, val[2]))
        return r
    return Obl('%s: colours of verdicts' % conf, run)
