"""Specifications of what is read from and written to files."""
import itertools, re, time
from base import *
from specs_core import *
from specs_ana import ana, opt
from contract import Result
from models import RES
import facts, peg, resolve, models

PAIR = 'pest::iterators::Pair'

class Form:
    """a text with holes. `a` stands for a name, %n for a number, $k for an interaction"""
    def __init__(self, tmpl): self.tmpl = tmpl
TOKS = re.compile(r'`(\w+)`|%(\w+)|\$(\d)')

class Lang:
    """one of the textual formats: its grammar, the rules of its parser"""
    def __init__(self, C, parser, hole=None):
        self.C, self.hole = C, hole
        p = peg.grammar_of(facts.REPO, parser)
        if p is None: raise resolve.Missing('grammar of %s' % parser)
        self.G = peg.Grammar(p)
        cs = [a for a in C.P.adts if a.endswith('::Rule') and self.G.order[0] in [v['name'] for v in C.P.adts[a]['variants']]
              and set(self.G.order) <= {v['name'] for v in C.P.adts[a]['variants']}]
        if len(cs) != 1: raise resolve.Missing('rules of %s' % parser)
        self.rule = cs[0]
        self.parser = parser
        lits = sorted(l for l in self.G.literals() if re.fullmatch(r'[^\W\d_]\w*', l))
        self.names = []
        for l in lits: self.names += [l, l + 'x', l + '1']
        one = [l for l in lits if len(l) == 1]
        self.names += [l + k for l in lits for k in one] + [l + k + 'x' for l in lits for k in one]
        self.nums = ['0', '1', '10', '203']
    def fill(self, tmpl, labels=None, nums=None):
        """text, label texts -> symbols"""
        labels, nums = labels or {}, nums or {}
        table, holes = {}, {}
        def f(m):
            if m.group(1):
                t = labels.get(m.group(1), 'zq_' + m.group(1)); table[t] = sym(m.group(1), 'str'); return t
            if m.group(2):
                t = nums.get(m.group(2), str(7 + len([1 for x in table if x.isdigit()]))); table[t] = sym(m.group(2), 'str'); return t
            c = chr(0xe000 + int(m.group(3))); holes[c] = self.hole
            table[c] = sym('text' + m.group(3), 'str')
            return c
        text = TOKS.sub(f, tmpl)
        self.G.holes = holes
        return text, table
    def parse(self, rule, text): return self.G.parse(rule, text)
    def term(self, p, table):
        name, text, kids, pos = p
        t = table.get(text, ('str', text))
        if text in self.G.holes: inner = sym('inner' + t[1])
        else: inner = ('coll', 'seq', tuple(('one', self.term(k, table)) for k in kids))
        return ('adt', PAIR, 'Pair', (mk_adt(self.rule, name, []), t, inner))
    def hooks(self, tmpl, result=None, source=sym('text', 'std::string::String')):
        """pest on this text"""
        text, table = self.fill(tmpl)
        C = self.C
        def parse(eng, st, info, args):
            if not (info['args'] and info['args'][0].endswith('::' + self.parser)): return None
            r = eng.deep(st, args[0])
            s = eng.deep(st, args[1])
            if r[0] != 'adt' or s != source: raise engine_.GiveUp('parser called on something else: %r %r' % (r, s))
            text, table = self.fill(tmpl)
            try: got = self.parse(r[2], text)
            except peg.Hole as e: raise engine_.GiveUp('the grammar looks into a hole')
            if got is None: return [('ret', mk_adt(RES, 'Err', [sym('mismatch')]), st)]
            return [('ret', mk_adt(RES, 'Ok', [('coll', 'seq', tuple(('one', self.term(p, table)) for p in got[1]))]), st)]
        def part(i):
            def h(eng, st, info, args):
                v = eng.deref(st, args[0])
                if v[0] != 'adt' or v[1] != PAIR: return None
                return [('ret', v[3][i], st)]
            return h
        def rec(eng, st, info, args):
            if not info.get('local') or result is None: return None
            for a in args:
                v = eng.deref(st, a)
                if v[0] == 'adt' and v[1] == PAIR and v[3][1][0] == 'sym' and v[3][1][1].startswith('text'):
                    b = eng.P.bodies.get(info.get('res') or info['fn'])
                    if b is not None and result in b['locals'][0] and 'Result' in b['locals'][0] and 'Vec' not in b['locals'][0]:
                        return [('ret', app('parsed', v[3][1]), st)]
            return None
        ws = lambda eng, st, info, args: [('ret', FALSE, st)]
        ident = lambda eng, st, info, args: [('ret', eng.deep(st, args[0]), st)]
        return {'pest::Parser::parse': parse, PAIR + "::<'i, R>::as_rule": part(0), PAIR + "::<'i, R>::as_str": part(1),
                PAIR + "::<'i, R>::into_inner": part(2), '*': rec, '!unroll': 8, 'core::str::<impl str>::chars': ident,
                'core::char::methods::<impl char>::is_whitespace': ws, 'std::char::methods::<impl char>::is_whitespace': ws, 'std::char::is_whitespace': ws}
    # ------------------------------------------------------------------ obligations on the grammar itself
    def names_obl(self, name, start, forms, after=('',)):
        """whatever the names and numbers in the text, it is read with the same structure"""
        def run():
            r = Result(name)
            t0 = time.time()
            r.where = self.G.path
            r.fn = self.parser
            for tmpl in forms:
                ls = sorted(set(m.group(1) for m in TOKS.finditer(tmpl) if m.group(1)))
                ns = sorted(set(m.group(2) for m in TOKS.finditer(tmpl) if m.group(2)))
                try:
                    text, _ = self.fill(tmpl)
                    base = self.parse(start, text)
                    if base is None:
                        r.violations.append('%s: the text %s is not recognised (stops near position %d: %r)' % (self.rel(), self.show(text), self.G.far, text[self.G.far:self.G.far + 12])); continue
                    ref = [peg.shape(p) for p in base[1]]
                    r.outcomes += 1
                    bad = {}
                    for l in ls:
                        for n in self.names:
                            r.leaves += 1
                            t, _ = self.fill(tmpl, labels={l: n})
                            g = self.parse(start, t)
                            if g is None or [peg.shape(p) for p in g[1]] != ref: bad.setdefault(l, []).append((n, t, g is None))
                    for l in ns:
                        for n in self.nums:
                            r.leaves += 1
                            t, _ = self.fill(tmpl, nums={l: n})
                            g = self.parse(start, t)
                            if g is None or [peg.shape(p) for p in g[1]] != ref: bad.setdefault(l, []).append((n, t, g is None))
                    for l, xs in bad.items():
                        n, t, none_ = xs[0]
                        r.violations.append('%s: %s is %s when %s is %s' % (self.rel(), self.show(t), 'not recognised' if none_ else 'read with another structure', l, ', '.join(repr(x[0]) for x in xs[:4])))
                except peg.Hole as e:
                    r.undecided.append('%s: the grammar looks into a sub-term on %s' % (self.rel(), self.show(tmpl)))
            r.wall = time.time() - t0
            return r
        return Obl(name, run)
    def rel(self): return self.G.path.replace(facts.REPO + '/', '')
    def show(self, t): return '`%s`' % re.sub('[\ue000-\ue0ff]', '..', t)

import engine as engine_

def noerr(A, t):
    """results whose error is forgotten"""
    if t[0] in ('app', 'sym', 'fld') and A.pc.known(('disc', t, RES)) == ('Err',): return mk_adt(RES, 'Err', [UNIT])
    if t[0] == 'adt' and t[1] == RES and t[2] == 'Err': return mk_adt(RES, 'Err', [UNIT])
    return t

def OK(*x): return mk_adt(RES, 'Ok', list(x))
ERR = mk_adt(RES, 'Err', [UNIT])

class Hif:
    """texts of interactions"""
    def __init__(self, C):
        self.C = C
        self.L = Lang(C, 'HifParser', 'SD_INTERACTION')
        self.key = C.f('parse_hif_string')
        self.GC = C.a('GeneralContext')
        self.g = sym('gen_ctx', self.GC)
        self.ids = {k: C.m('GeneralContext', 'get_%s_id' % k) for k in ('lf', 'gt', 'ms')}
    def id(self, k, l): return self.C.call(self.ids[k], self.g, sym(l, 'str'))
    def look(self, A, k, l):
        """identifier or None"""
        v = self.id(k, l)
        return fld(v, OPTION, 'Some', 0) if A.var(v, OPTION) == 'Some' else None
    def sub(self, A, k):
        r = app('parsed', sym('text%d' % k, 'str'))
        return fld(r, RES, 'Ok', 0) if A.var(r, RES) == 'Ok' else None
    def obl(self, tmpl, spec):
        C = self.C
        def run():
            from contract import check
            h = dict(C.hooks); h.update(self.L.hooks(tmpl, result=C.INT))
            r = check(C.P, 'text %s' % tmpl.replace('`', '').replace('$', 'i'), self.key, [self.g, sym('text', 'std::string::String')],
                      lambda A, g, t: spec(A), set(self.ids.values()), hooks=h, canon=noerr, panics='all')
            return r
        return Obl('text ' + tmpl, run)

OPTION = T.OPTION

@prop('P24')
def p24(C):
    """reading interactions"""
    F = Hif(C)
    o = []
    def const(v): return lambda A: OK(v)
    for t in ('∅', 'o', ' o\n', '/* nothing */ ∅'): o.append(F.obl(t, const(C.Empty)))
    forms = ['∅', 'o']
    def nary(op, mk, n):
        def spec(A):
            xs = [F.sub(A, k) for k in range(n)]
            if None in xs: return ERR
            r = xs[-1]
            for x in reversed(xs[:-1]): r = mk(x, r)
            return OK(r)
        return spec
    for kw, v in (('strict', 'Strict'), ('seq', 'Seq'), ('alt', 'Alt'), ('par', 'Par'), ('and', 'And')):
        for n in (2, 3):
            t = '%s(%s)' % (kw, ','.join('$%d' % k for k in range(n)))
            forms.append(t)
            o.append(F.obl(t, nary(kw, lambda x, y, v=v: C.I(v, x, y), n)))
    for kw, v in (('S', 'SStrictSeq'), ('H', 'HHeadFirstWS'), ('W', 'WWeakSeq'), ('P', 'PInterleaving')):
        def spec(A, v=v):
            x = F.sub(A, 0)
            return ERR if x is None else OK(C.I('Loop', mk_adt(C.LK, v, []), x))
        t = 'loop%s($0)' % kw
        forms.append(t); o.append(F.obl(t, spec))
    for n, m in ((1, 2), (2, 2), (2, 3)):
        def spec(A, n=n, m=m):
            lfs = distinct(A, [F.look(A, 'lf', 'r%d' % k) for k in range(n)])
            xs = [F.sub(A, k) for k in range(m)]
            if lfs is None or None in xs: return ERR
            r = xs[-1]
            for x in reversed(xs[:-1]): r = C.I('CoReg', coll('seq', [('one', l) for l in lfs]), x, r)
            return OK(r)
        t = 'coreg(%s)(%s)' % (','.join('`r%d`' % k for k in range(n)), ','.join('$%d' % k for k in range(m)))
        forms.append(t); o.append(F.obl(t, spec))
    # synchronisations
    def act(A, l, s, m):
        x, y = F.look(A, 'lf', l), F.look(A, 'ms', m)
        if x is None or y is None: return None
        return C.ta(x, {'!': 'Emission', '?': 'Reception'}[s], y)
    for acts, m in ((['!'], 2), (['?'], 3), (['!', '?'], 2), (['?', '!', '!'], 2)):
        def spec(A, acts=acts, m=m):
            xs = [act(A, 'l%d' % k, s, 'm%d' % k) for k, s in enumerate(acts)]
            ys = [F.sub(A, k) for k in range(m)]
            if None in xs or None in ys: return ERR
            u = models.sorted_(set_norm(coll('set', [('one', x) for x in xs]))) if len(xs) > 1 else coll('seq', [('one', xs[0])])
            r = ys[-1]
            for x in reversed(ys[:-1]): r = C.I('Sync', u, x, r)
            return OK(r)
        a = ['`l%d`%s`m%d`' % (k, s, k) for k, s in enumerate(acts)]
        t = 'sync%s(%s)' % ('(%s)' % a[0] if len(a) == 1 else '{%s}' % ','.join(a), ','.join('$%d' % k for k in range(m)))
        forms.append(t); o.append(F.obl(t, spec))
    # communications
    def distinct(A, xs):
        if None in xs: return None
        for i in range(len(xs)):
            for j in range(i):
                if xs[i][0] == 'adt' and xs[j][0] == 'adt' and xs[i][2] != xs[j][2]: continue
                if A.b(eq(xs[i], xs[j])): return None
        return xs
    lst = lambda xs: coll('seq', [('one', x) for x in xs])
    def target(A, l):
        x = F.look(A, 'lf', l)
        if x is not None: return mk_adt(C.TR, 'Lifeline', [x])
        x = F.look(A, 'gt', l)
        return None if x is None else mk_adt(C.TR, 'Gate', [x])
    for org in (False, True):
        for sy in ('', '<asynch>', '<synch>'):
            for n in (0, 1, 2, 3, -1):
                if n == 3 and (sy or not org): continue
                k = 1 if n == -1 else n
                def spec(A, org=org, sy=sy, k=k):
                    s = mk_adt(C.SY, 'Synchronous' if sy == '<synch>' else 'Asynchronous', [])
                    ms = F.look(A, 'ms', 'm')
                    gt = none()
                    if org:
                        x = F.look(A, 'lf', 'a')
                        if x is not None:
                            ts = distinct(A, [target(A, 't%d' % i) for i in range(k)])
                            if ms is None or ts is None: return ERR
                            return OK(C.I('Emission', C.mk_em(x, ms, s, lst(ts))))
                        x = F.look(A, 'gt', 'a')
                        if x is None: return ERR
                        gt = some(x)
                    ts = distinct(A, [F.look(A, 'lf', 't%d' % i) for i in range(k)])
                    if ms is None or ts is None: return ERR
                    return OK(C.I('Reception', C.mk_rc(gt, ms, s, lst(ts))))
                tg = '|' if n == 0 else '`t0`' if n == 1 else '(%s)' % ','.join('`t%d`' % i for i in range(k))
                t = ('`a` -- ' if org else '') + sy + '`m` -> ' + tg
                forms.append(t); o.append(F.obl(t, spec))
    o.append(F.obl('`a` -- `m` ->|', lambda A: ANY))
    for t in ('∅ ∅', '`m` -> `a` ;', 'strict($0,$1))'): o.append(F.obl(t, lambda A: ERR))
    # the structure of the text does not depend on the names; a term reads the same inside another one
    inside = ['strict(%s,%s)' % (f.replace('$0', '$5').replace('$1', '$6').replace('$2', '$7'), '$4') for f in forms]
    o.append(F.L.names_obl('names in the text of interactions', 'HIF_PEST_FILE', [f for f in forms if f.count('$') < 3]))
    o.append(opened(C, 'of an interaction', C.f('parse_hif_file'), 'hif', [F.g, PATH], F.key, [F.g, TEXT]))
    o.append(F.L.names_obl('nested texts of interactions', 'HIF_PEST_FILE', [f.replace('`m', '`mm') for f in inside]))
    return o

def minus(x, y): return T.filter_('set', x, lambda e: bnot(contains(y, e)))

class Reader:
    """a textual format read by one function"""
    def __init__(self, C, parser, start, key, args=(), more=(), result=None):
        self.C, self.L, self.start, self.key, self.args, self.more = C, Lang(C, parser), start, key, list(args), set(more)
        self.forms = []
    def obl(self, tmpl, spec, garbage=False, hooks=None):
        """the value read from this text"""
        C = self.C
        if not garbage: self.forms.append(tmpl)
        def run():
            from contract import check
            h = dict(C.hooks); h.update(self.L.hooks(tmpl)); h.update(hooks or {})
            return check(C.P, 'text %s' % ' '.join(tmpl.replace('`', '').split()), self.key, [sym('text', 'std::string::String') if a == 'text' else a for a in self.args],
                         lambda A, *a: spec(A), self.more, hooks=h, canon=noerr, panics='all')
        return Obl('text ' + tmpl, run)

@prop('P25')
def p25(C):
    """reading signatures"""
    GC = C.a('GeneralContext')
    R = Reader(C, 'HsfParser', 'HSF_PEST_FILE', C.f('parse_hsf_string'), ['text'])
    o = []
    SEC = {'m': ('@message', 'ms_names'), 'l': ('@lifeline', 'lf_names'), 'g': ('@gate', 'gt_names')}
    def text(secs, sep=';', end='', ws=' '):
        return ws.join('%s{%s%s}' % (SEC[k][0], sep.join('`%s%d`' % (k, i) for i in range(n)), end) for k, n in secs)
    def spec(secs):
        def f(A):
            if len({k for k, n in secs}) < len(secs): return ERR
            v = {SEC[k][1]: [] for k in SEC}
            for k, n in secs:
                kept = v[SEC[k][1]]
                for i in range(n):
                    x = sym('%s%d' % (k, i), 'str')
                    if not any(A.b(eq(y, x)) for y in kept): kept.append(x)
            return OK(C.struct(GC, **{f: coll('seq', [('one', x) for x in xs]) for f, xs in v.items()}))
        return f
    secss = [(), (('m', 1),), (('m', 3),), (('l', 1),), (('l', 3),), (('g', 1),), (('g', 3),)]
    secss += [tuple((k, 2) for k in p) for p in itertools.permutations('mlg', 2)] + [tuple((k, 1) for k in p) for p in itertools.permutations('mlg')]
    secss += [(('m', 1), ('m', 1)), (('l', 1), ('l', 1)), (('g', 1), ('g', 1)), (('m', 1), ('l', 1), ('m', 1)), (('g', 1), ('m', 1), ('g', 1)), (('l', 1), ('g', 1), ('l', 2))]
    for s in secss: o.append(R.obl(text(s), spec(s)))
    for s in ((('m', 2), ('l', 1)), (('g', 2),)):
        o.append(R.obl(text(s, end=';'), spec(s)))
        o.append(R.obl(text(s, sep=' /* c */ ;\n\t', end='\r\n', ws=' /* @message{x} */ '), spec(s)))
    for t in ('@message{}', '@message{`m0`;;}', '@message{`m0`} x', '@message{`m0` `m1`}', '@other{`m0`}', '@message{1}'):
        o.append(R.obl(t, lambda A: ERR, garbage=True))
    o.append(opened(C, 'of a signature', C.f('parse_hsf_file'), 'hsf', [PATH], R.key, [TEXT]))
    o.append(R.L.names_obl('names in the text of signatures', R.start, R.forms))
    return o

@prop('P26')
def p26(C):
    """reading multi-traces"""
    N = ana(C)
    GC = C.a('GeneralContext')
    g = sym('gen_ctx', GC)
    gm = lambda n: C.m('GeneralContext', n)
    LF, MS, ALL, NUM, TRIV = gm('get_lf_id'), gm('get_ms_id'), gm('get_all_lfs_ids'), gm('get_lf_num'), C.m('CoLocalizations', 'get_trivial_partition')
    more = [LF, MS, TRIV]
    # (all the lifelines are the numbers below the number of names: P20)
    num = T.length(C.field(g, GC, 'lf_names'))
    every = T.app('range', I(0), num)
    R = Reader(C, 'HtfParser', 'HTF_PEST_FILE', C.f('multitrace_from_text'), [g, 'text'], more)
    o = []
    def look(A, k, l):
        v = C.call(k, g, sym(l, 'str'))
        return fld(v, OPTION, 'Some', 0) if A.var(v, OPTION) == 'Some' else None
    seq = lambda xs: coll('seq', [('one', x) for x in xs])
    st = lambda xs: set_norm(coll('set', [('one', x) for x in xs]))
    # a canal: (kind or list of lifelines, [[(lifeline, symbol, message)]])
    def has(A, s, x):
        """s: list of members, or a term"""
        if isinstance(s, list): return any(A.b(eq(y, x)) for y in s)
        return A.b(contains(s, x))
    def read_trace(A, tr, unav, lfs, grow):
        out = []
        for elt in tr:
            acts = []
            for l, s, m in elt:
                x, y = look(A, LF, l), look(A, MS, m)
                if x is None or y is None: return None
                if any(has(A, u, x) for u in unav): return None
                if grow: lfs.append(x)
                elif not has(A, lfs, x): return None
                acts.append(C.ta(x, {'!': 'Emission', '?': 'Reception'}[s], y))
            out.append(st(acts))
        return seq(out)
    def spec(canals):
        def f(A):
            unav, colocs, traces = [], [], []
            for kind, tr in canals:
                if kind == '#any': lfs, grow = [], True
                elif kind == '#all':
                    lfs, grow = every, False
                    for u in unav: lfs = minus(lfs, st(u) if isinstance(u, list) else u)
                else:
                    lfs, grow = [], False
                    for l in kind:
                        x = look(A, LF, l)
                        if x is None or any(has(A, u, x) for u in unav): return ERR
                        lfs.append(x)
                t = read_trace(A, tr, unav, lfs, grow)
                if t is None: return ERR
                unav.append(lfs); colocs.append(st(lfs) if isinstance(lfs, list) else lfs); traces.append(t)
            rest = every
            for c in colocs: rest = minus(rest, c)
            cs = coll('seq', tuple(('one', c) for c in colocs) + fm('seq', rest, lambda x: TRUE, lambda x: coll('set', (('one', x),)))[2])
            ts = coll('seq', tuple(('one', c) for c in traces) + fm('seq', rest, lambda x: TRUE, lambda x: coll('seq', ()))[2])
            return OK(('tup', (C.struct(N.CO, locs_lf_ids=cs), ts)))
        return f
    def act(a): return '`%s`%s`%s`' % a
    def elt(e): return act(e[0]) if len(e) == 1 else '{%s}' % ','.join(act(a) for a in e)
    def trace(t): return '.'.join(elt(e) for e in t)
    def text(canals): return '{%s}' % ';'.join('[%s] %s' % (k if isinstance(k, str) else ','.join('`%s`' % l for l in k), trace(t)) for k, t in canals)
    a, b, c, d = ('l0', '!', 'm0'), ('l1', '?', 'm1'), ('l2', '!', 'm2'), ('l0', '?', 'm1')
    trs = [[], [[a]], [[b]], [[a], [b]], [[a, b]], [[b, a], [d]], [[a], [d, c]]]
    for t in trs:
        def f(A, t=t):
            r = read_trace(A, t, [], [], True)
            return ERR if r is None else OK(('tup', (C.call(TRIV, num), seq([r]))))
        o.append(R.obl(trace(t), f))
    forms = [[]] + [[(k, t)] for k in ('#any', '#all', ('c0',), ('c0', 'c1')) for t in trs[:5]]
    forms += [[(('c0',), [[a]]), (('c1',), [[b]])], [('#any', [[a]]), ('#any', [[b]])], [('#any', [[a]]), ('#all', [[b]])], [('#all', [[a]]), (('c0',), [])],
              [(('c0',), []), ('#all', [[a]])], [(('c0',), []), ('#any', [[a]])], [('#any', [[a], [b]]), (('c0',), [])], [(('c0',), []), (('c1', 'c2'), []), (('c3',), [])],
              [(('c0',), []), ('#all', []), ('#any', [[a]])]]
    for f in forms: o.append(R.obl(text(f), spec(f)))
    o.append(R.obl(text(forms[-1])[:-1] + ' ; /* last */ }\n', spec(forms[-1])))
    for t in ('{[] `l0`!`m0`}', '{[#any] `l0`!`m0`.}', '`l0`!`m0`.', '`l0`!', '`l0` `m0`', '{[#any] {`l0`!`m0`}}', '{[#any]} x', '{[#any] `l0`!`m0` [#any] }', '[#any] `l0`!`m0`', '{[#some] `l0`!`m0`}'):
        o.append(R.obl(t, lambda A: ERR, garbage=True))
    o.append(opened(C, 'of a multi-trace', C.f('parse_htf_file'), 'htf', [g, PATH], R.key, [g, TEXT]))
    o.append(R.L.names_obl('names in the text of multi-traces', R.start, R.forms))
    return o

READ, EXT, STEM, PARSE = 'std::fs::read_to_string', 'std::path::Path::extension', 'std::path::Path::file_stem', 'core::str::<impl str>::parse'
def path_hooks():
    """the parts of the path of a file"""
    ident = lambda eng, st, info, args: [('ret', eng.deep(st, args[0]), st)]
    opt_ = lambda n: lambda eng, st, info, args: [('ret', some(app(n, eng.deep(st, args[0]))), st)]
    tostr = lambda eng, st, info, args: [('ret', some(eng.deep(st, args[0])), st)]
    read = lambda eng, st, info, args: [('ret', app('contents', eng.deep(st, args[0])), st)]
    ext = lambda eng, st, info, args: [('ret', app('extension', eng.deep(st, args[0])), st)]
    return {'std::path::Path::new': ident, EXT: ext, STEM: opt_('stem'), 'std::ffi::OsStr::to_str': tostr, READ: read}
PATH = sym('path', 'str')
CONTENTS = app('contents', PATH)
TEXT = fld(CONTENTS, RES, 'Ok', 0)
def file_guard(A, ext):
    """the file is readable and has this extension"""
    e = app('extension', PATH)
    return A.var(e, OPTION) == 'Some' and A.b(eq(fld(e, OPTION, 'Some', 0), ('str', ext))) and A.var(CONTENTS, RES) == 'Ok'

def opened(C, name, key, ext, args, reader, rargs):
    """the file is read with the reader of its format"""
    return C.go('file ' + name, key, args, lambda A, *a: C.call(reader, *rargs) if file_guard(A, ext) else ERR, more=[reader], hooks=path_hooks(), canon=noerr, panics='all')

def ext(C, ty, name):
    """key of a method of a type of another crate"""
    pat = re.compile(r'(^|::)%s(::<[^()]*>)?::%s$' % (ty, name))
    found = set()
    for b in C.P.bodies.values():
        for bb in b['blocks']:
            if bb and bb[1][0] == 'call' and bb[1][2][0] == 'k':
                i = bb[1][2][1]
                for k in (i.get('res'), i.get('fn')):
                    if k and pat.search(k): found.add(i.get('res') or i['fn'])
    if not found: raise resolve.Missing('%s::%s' % (ty, name))
    return sorted(found)[0]

def number(eng, st, info, args):
    t = eng.deep(st, args[0])
    if t[0] == 'str' and re.fullmatch(r'-?\d+', t[1]): return [('ret', OK(I(int(t[1]))), st)]
    return [('ret', app('number', t), st)]      # or an error: it may be too large
def num(n): return fld(app('number', sym(n, 'str')), RES, 'Ok', 0)

class Hcf(Reader):
    def __init__(self, C):
        N = self.N = ana(C)
        self.g = sym('gen_ctx', C.a('GeneralContext'))
        gm = lambda n: C.m('GeneralContext', n)
        self.LF, self.NUM = gm('get_lf_id'), gm('get_lf_num')
        self.TRIV, self.DISC = C.m('CoLocalizations', 'get_trivial_partition'), C.m('CoLocalizations', 'get_discrete_partition')
        self.GV, self.NF, self.ST, self.GP = ext(C, 'GenericGraphVizLogger', 'new'), ext(C, 'GenericNFAITLogger', 'new'), ext(C, 'GenericStepsTraceLogger', 'new'), ext(C, 'GenericProcessPriorities', 'new')
        Reader.__init__(self, C, 'HcfParser', 'HCF_PEST_FILE', None, [self.g, PATH], [self.LF, self.NUM, self.TRIV, self.DISC, self.GV, self.NF, self.ST, self.GP])
        self.strat, self.fmt, self.lay = C.a('QueueSearchStrategy'), C.a('GraphVizOutputFormat'), C.a('GraphVizProcessLoggerLayout')
    def sec(self, key, tmpl, spec, garbage=False):
        """what is read from a file with this text"""
        C = self.C
        if not garbage: self.forms.append(tmpl)
        def run():
            from contract import check
            h = dict(C.hooks); h.update(path_hooks()); h.update(self.L.hooks(tmpl, source=TEXT)); h[PARSE] = number
            nums = [app('number', sym(n, 'str')) for n in re.findall(r'%(\w+)', tmpl)]
            return check(C.P, 'text %s' % ' '.join(tmpl.replace('`', '').split()), key, self.args,
                         lambda A, *a: spec(A) if file_guard(A, 'hcf') and all(A.var(n, RES) == 'Ok' for n in nums) else ERR, self.more, hooks=h, canon=noerr, panics='all')
        return Obl('text ' + tmpl, run)
    def en(self, adt, v, *a): return mk_adt(adt, v, list(a))
    def seq(self, xs): return coll('seq', [('one', x) for x in xs])
    def prio(self, adt, rnd=FALSE, **kw):
        return self.C.call(self.GP, self.C.struct(adt, **kw), rnd)
    def label(self, n): return sym(n, 'str')
    # loggers
    def graphic(self, i, format='svg', layout='Vertical', sd=TRUE, tt=FALSE, legend=TRUE, folder=('str', ''), name=None):
        C = self.C
        d = C.struct(C.a('InteractionProcessDrawer'), temp_folder=('str', 'graphviz_temp_l%d' % i), int_repr_sd=sd, int_repr_tt=tt)
        if name is None: name = models.merge_str(coll('seq', T.gens_of(app('stem', PATH), 'seq') + (('spread', ('str', '_l%d' % i)),)))
        return C.call(self.GV, d, self.en(self.fmt, format), self.en(self.lay, layout), legend, folder, name)
    def tracegen(self, i, gen=('accepted',), part=None, folder=None, prefix=('str', 'trace'), nodup=FALSE):
        C = self.C
        if part is None: part = C.call(self.TRIV, C.call(self.NUM, self.g))
        p = C.struct(C.a('MultiTraceProcessPrinter'), partition=part, tracegen=self.en(C.a('TracegenProcessLoggerGeneration'), *gen))
        return C.call(self.ST, p, nodup, prefix, ('str', 'htf'), ('str', 'tracegen_l%d' % i) if folder is None else folder)
    def parts(self, A, names):
        """co-localizations listed for the generation of traces"""
        seen, out = [], []
        for ns in names:
            c = []
            for n in ns:
                v = self.C.call(self.LF, self.g, sym(n, 'str'))
                if A.var(v, OPTION) != 'Some': return None
                x = fld(v, OPTION, 'Some', 0)
                if any(A.b(eq(y, x)) for y in seen): return None
                seen.append(x); c.append(x)
            out.append(set_norm(coll('set', [('one', x) for x in c])))
        if A.b(lt(T.length(set_norm(coll('set', [('one', x) for x in seen]))), self.C.call(self.NUM, self.g))): return None      # lifelines are missing
        return self.C.struct(self.N.CO, locs_lf_ids=self.seq(out))
    def loggers(self, key, wrap, nfa):
        """[(text, specification of the list of loggers | None when refused)]"""
        T_, F_ = TRUE, FALSE
        bools = [('true', T_), ('True', T_), ('TRUE', T_), ('⊤', T_), ('false', F_), ('False', F_), ('FALSE', F_), ('⊥', F_)]
        G, TG = self.graphic, self.tracegen
        out = []
        def one(t, f): out.append(('loggers=[%s]' % t, lambda A: (lambda r: None if r is None or None in r else self.seq(r))(f(A))))
        one('graphic', lambda A: [G(1)])
        for t, kw in [('png', dict(format='png')), ('svg', dict(format='svg')), ('format=png', dict(format='png')), ('format=svg', dict(format='svg')),
                      ('horizontal', dict(layout='Horizontal')), ('vertical', dict(layout='Vertical')), ('layout=horizontal', dict(layout='Horizontal')), ('layout=vertical', dict(layout='Vertical')),
                      ('parent=`p`', dict(folder=self.label('p'))), ('parent_folder=`p`', dict(folder=self.label('p'))), ('folder=`p`', dict(folder=self.label('p'))),
                      ('output=`n`', dict(name=self.label('n'))), ('name=`n`', dict(name=self.label('n'))),
                      ('format=png,layout=horizontal,draw_sd=false,draw_tt=true,draw_legend=false,draw_sub_processes=false,folder=`p`,name=`n`,',
                       dict(format='png', layout='Horizontal', sd=F_, tt=T_, legend=F_, folder=self.label('p'), name=self.label('n')))]:
            one('graphic[%s]' % t, lambda A, kw=kw: [G(1, **kw)])
        for o, k in (('draw_sd', 'sd'), ('draw_tt', 'tt'), ('draw_legend', 'legend'), ('draw_sub_processes', None)):
            for w, v in (bools if k == 'sd' else bools[::4]): one('graphic[%s=%s]' % (o, w), lambda A, k=k, v=v: [G(1, **({k: v} if k else {}))])
        one('graphic,graphic[png],', lambda A: [G(1), G(2, format='png')])
        bad = lambda A: [None]
        trace = nfa is not None
        one('tracegen', (lambda A: [TG(1)]) if trace else bad)
        if trace:
            part = lambda *ns: lambda A: (lambda p: None if p is None else [TG(1, part=p)])(self.parts(A, ns))
            for t, f in [('generation=accepted', lambda A: [TG(1)]), ('generation=exact depth %n', lambda A: [TG(1, gen=('atExactDepth', num('n')))]),
                         ('generation=modulo depth %n', lambda A: [TG(1, gen=('atDepthModulo', num('n')))]),
                         ('partition=trivial', lambda A: [TG(1)]), ('partition=discrete', lambda A: [TG(1, part=self.C.call(self.DISC, self.C.call(self.NUM, self.g)))]),
                         ('partition={(`a`)}', part(['a'])), ('partition={(`a`,`b`)}', part(['a', 'b'])), ('partition={(`a`),(`b`)}', part(['a'], ['b'])), ('partition={(`a`,`b`),(`c`)}', part(['a', 'b'], ['c'])),
                         ('parent=`p`', lambda A: [TG(1, folder=self.label('p'))]), ('parent_folder=`p`', lambda A: [TG(1, folder=self.label('p'))]), ('folder=`p`', lambda A: [TG(1, folder=self.label('p'))]),
                         ('name_prefix=`p`', lambda A: [TG(1, prefix=self.label('p'))]), ('trace_prefix=`p`', lambda A: [TG(1, prefix=self.label('p'))]), ('prefix=`p`', lambda A: [TG(1, prefix=self.label('p'))]),
                         ('avoid_duplicates=true', lambda A: [TG(1, nodup=T_)]), ('prevent_duplicates=true', lambda A: [TG(1, nodup=T_)]), ('no_duplicates=true', lambda A: [TG(1, nodup=T_)]), ('no_duplicates=false', lambda A: [TG(1)])]:
                one('tracegen[%s]' % t, f)
            one('graphic,tracegen[prefix=`p`]', lambda A: [G(1), TG(2, prefix=self.label('p'))])
        for w in ('nfa', 'nfait'):
            if nfa: one(w, lambda A: [nfa(1)]); one('graphic,' + w, lambda A: [G(1), nfa(2)])
            else: one(w, bad)
        opts = self.opts
        return [self.sec(key, wrap(t), lambda A, f=f: (lambda r: ERR if r is None else opts(loggers=r))(f(A))) for t, f in out]

@prop('P27')
def p27(C):
    """reading configurations"""
    R = Hcf(C)
    o = []
    T_, F_ = TRUE, FALSE
    seq = R.seq
    bools = [('true', T_), ('⊤', T_), ('True', T_), ('TRUE', T_), ('false', F_), ('⊥', F_), ('False', F_), ('FALSE', F_)]
    strategies = [('BFS', 'BFS'), ('BreadthFS', 'BFS'), ('Breadth First Search', 'BFS'), ('DFS', 'DFS'), ('DepthFS', 'DFS'), ('Depth First Search', 'DFS'), ('HCS', 'HCS'), ('HighCoverageS', 'HCS'), ('High Coverage Search', 'HCS')]
    def common(cmd, key, section, OPT, base, FI, PR, prios, nodefault):
        wrap = lambda t: '@%s{%s}' % (section, t)
        R.opts = lambda **kw: OK(C.struct(OPT, **dict(base, **kw)))
        def case(t, garbage=False, **kw):
            def spec(A, opts=R.opts): return opts(**kw)
            o.append(R.sec(key, wrap(t), spec, garbage))
        def bad(t, **kw): o.append(R.sec(key, wrap(t), lambda A: ERR, **kw))
        for w, v in strategies: case('strategy=' + w, strategy=R.en(R.strat, v))
        for w, v in bools: case('memoize=' + w, use_memoization=v)
        fl = lambda v, n='n': R.en(FI, v, num(n))
        for t, v in (('max_depth', 'MaxProcessDepth'), ('max depth', 'MaxProcessDepth'), ('max_loop_depth', 'MaxLoopInstanciation'), ('max loop depth', 'MaxLoopInstanciation'), ('max_node_number', 'MaxNodeNumber'), ('max node number', 'MaxNodeNumber')):
            case('filters=[%s=%%n]' % t, filters=seq([fl(v)]))
        case('filters=[max_depth=%n,max_loop_depth=%m,max_node_number=%k,]', filters=seq([fl('MaxProcessDepth'), fl('MaxLoopInstanciation', 'm'), fl('MaxNodeNumber', 'k')]))
        zero = {f: I(0) for w, f in prios}
        for w, v in bools: case('priorities=[randomize=%s]' % w, priorities=R.prio(PR, v, **zero))
        for w, f in prios:
            case('priorities=[%s=%%n]' % w, priorities=R.prio(PR, F_, **dict(zero, **{f: num('n')})))
            case('priorities=[%s=-3]' % w, priorities=R.prio(PR, F_, **dict(zero, **{f: I(-3)})))
        allp = [w for w, f in prios]
        case('priorities=[%s,randomize=true,]' % ','.join('%s=%%n%d' % (w, i) for i, w in enumerate(allp)),
             priorities=R.prio(PR, T_, **{f: num('n%d' % i) for i, (w, f) in enumerate(prios)}))
        for w in ('emission', 'reception', 'loop', 'multi_rdv', 'elim', 'simu', 'simpl', 'flush', 'invert', 'deduplicate', 'factorize', 'defactorize'):
            if w not in allp: bad('priorities=[%s=%%n]' % w)
        # two options; repeated and ill-formed sections
        case('strategy=HCS;memoize=%s;' % ('true' if base['use_memoization'] == F_ else 'false'), strategy=R.en(R.strat, 'HCS'), use_memoization=T_ if base['use_memoization'] == F_ else F_)
        for t in ('', 'strategy', 'filters=[]', 'filters=[max_depth=-1]', 'priorities=[]', 'loggers=[]', 'memoize=1', 'search_all', 'strategy=BFS memoize=true'): bad(t, garbage=True)
        two = wrap('strategy=BFS')
        o.append(R.sec(key, two + two, lambda A: ERR))
        o.append(R.sec(key, two + '{}', lambda A: ERR, garbage=True))
        others = [s for s in ('@explore_option{strategy=HCS}', '@analyze_option{strategy=HCS}', '@canonize_option{search_all}') if section not in s]
        o.append(R.sec(key, others[0] + others[1], lambda A: OK(nodefault)))
        o.append(R.sec(key, '', lambda A: OK(nodefault)))
        o.append(R.sec(key, others[0] + two + others[1], lambda A, opts=R.opts: opts(strategy=R.en(R.strat, 'BFS'))))
        return wrap, case, bad
    # exploration
    key, OPT, FI, PR = C.f('parse_hcf_file_for_explore'), C.a('HibouExploreOptions'), C.a('ExplorationFilter'), C.a('ExplorationPriorities')
    z = dict(emission=I(0), reception=I(0), multi_rdv=I(0), in_loop=I(0))
    base = dict(loggers=seq([]), strategy=R.en(R.strat, 'BFS'), filters=seq([]), priorities=R.prio(PR, **z), use_memoization=F_)
    px = [('emission', 'emission'), ('reception', 'reception'), ('loop', 'in_loop'), ('multi_rdv', 'multi_rdv')]
    wrap, case, bad = common('explore', key, 'explore_option', OPT, base, FI, PR, px, C.struct(OPT, **dict(base, filters=seq([R.en(FI, 'MaxLoopInstanciation', I(1))]))))
    def nfa(i):
        p = C.call(C.m('ActionNFAITPrinter', 'new'), seq([]), R.g)
        return C.call(R.NF, p, ('str', 'nfait_l%d' % i), some(('tup', (T_, R.en(R.fmt, 'svg')))), ('str', '.'))
    R.more.add(C.m('ActionNFAITPrinter', 'new'))
    o += R.loggers(key, wrap, nfa)
    for t in ('analysis_kind=accept', 'goal=none', 'por=true', 'local_analysis=none'): bad(t, garbage=True)
    # analysis
    key, OPT, FI, PR = C.f('parse_hcf_file_for_ana'), C.a('HibouAnalyzeOptions'), C.a('AnalysisFilter'), C.a('AnalysisPriorities')
    AK, LA, LS_, AP, SC, SL, SA, GVd = [C.a(n) for n in ('AnalysisKind', 'LocalAnalysisParameterization', 'LocalAnalysisLifelineSelectionPolicy', 'AnalysisParameterization',
                                                          'SimulationConfiguration', 'SimulationLoopCriterion', 'SimulationActionCriterion', 'AnalysisGlobalVerdict')]
    z = dict(emission=I(0), reception=I(0), multi_rdv=I(0), in_loop=I(0), elim=I(1), simu=I(-1))
    def la(pol='OnlyOnImpactedByLastStep', depth=none(), mod=I(1)): return some(C.struct(LA, on_lifeline_policy=R.en(LS_, pol), max_look_ahead_depth=depth, modulo_each_X_steps=mod))
    def par(kind=R.en(AK, 'Prefix'), loc=None, por=F_):
        return C.struct(AP, ana_kind=kind, locana=la() if loc is None else loc, partial_order_reduction=por)
    base = dict(loggers=seq([]), strategy=R.en(R.strat, 'BFS'), filters=seq([]), priorities=R.prio(PR, **z), use_memoization=T_, goal=some(R.en(GVd, 'WeakPass')), ana_param=par())
    pa = px + [('elim', 'elim'), ('simu', 'simu')]
    wrap, case, bad = common('analyze', key, 'analyze_option', OPT, base, FI, PR, pa, C.struct(OPT, **dict(base, strategy=R.en(R.strat, 'DFS'))))
    o += R.loggers(key, wrap, False)
    for w, v in (('Pass', some(R.en(GVd, 'Pass'))), ('WeakPass', some(R.en(GVd, 'WeakPass'))), ('none', none()), ('None', none()), ('NONE', none())): case('goal=' + w, goal=v)
    for w in ('partial_order_reduction', 'por', 'POR'):
        for b, v in bools[::4]: case('%s=%s' % (w, b), ana_param=par(por=v))
    for w, v in (('accept', 'Accept'), ('prefix', 'Prefix'), ('eliminate', 'Eliminate')): case('analysis_kind=' + w, ana_param=par(R.en(AK, v)))
    def sim(before=F_, reset=F_, mult=F_, loop=R.en(SL, 'MaxDepth'), act=R.en(SA, 'None')):
        return par(R.en(AK, 'Simulate', C.struct(SC, sim_before=before, reset_crit_after_exec=reset, multiply_by_multitrace_length=mult, loop_crit=loop, act_crit=act)))
    case('analysis_kind=simulate', ana_param=sim())
    for ws, k in ((('slice', 'before', 'preamble'), 'before'), (('multiply', 'resized', 'dependent'), 'mult'), (('reset', 'reinitialize'), 'reset')):
        for w in ws:
            for b, v in bools[::4]: case('analysis_kind=simulate[%s=%s]' % (w, b), ana_param=sim(**{k: v}))
    for w, v in (('num=%n', R.en(SL, 'SpecificNum', num('n'))), ('max_num', R.en(SL, 'MaxNum')), ('max num', R.en(SL, 'MaxNum')), ('max_depth', R.en(SL, 'MaxDepth')), ('max depth', R.en(SL, 'MaxDepth')), ('none', R.en(SL, 'None'))):
        case('analysis_kind=simulate[loop %s]' % w, ana_param=sim(loop=v))
    for w, v in (('num=%n', R.en(SA, 'SpecificNum', num('n'))), ('max_num', R.en(SA, 'MaxNumOutsideLoops')), ('max num', R.en(SA, 'MaxNumOutsideLoops')), ('none', R.en(SA, 'None'))):
        case('analysis_kind=simulate[act %s]' % w, ana_param=sim(act=v))
    case('analysis_kind=simulate[act num=%n,loop num=%m,before=true,multiply=true,reset=true,]', ana_param=sim(T_, T_, T_, R.en(SL, 'SpecificNum', num('m')), R.en(SA, 'SpecificNum', num('n'))))
    case('analysis_kind=simulate[before=true];analysis_kind=accept', ana_param=par(R.en(AK, 'Accept')))
    for w in ('none', 'None', 'NONE'): case('local_analysis=' + w, ana_param=par(loc=none()))
    for w, p_ in (('all', 'SelectAll'), ('All', 'SelectAll'), ('ALL', 'SelectAll'), ('dirty', 'OnlyOnImpactedByLastStep'), ('Dirty', 'OnlyOnImpactedByLastStep'), ('DIRTY', 'OnlyOnImpactedByLastStep')):
        case('local_analysis=[select=%s]' % w, ana_param=par(loc=la(p_)))
    for w in ('max_look_ahead_depth', 'max depth', 'lookahead', 'lookup'):
        case('local_analysis=[%s=%%n]' % w, ana_param=par(loc=la(depth=some(num('n')))))
        case('local_analysis=[%s=none]' % w, ana_param=par(loc=la()))
    for w in ('modulo', 'modulo_each_X_steps'): case('local_analysis=[%s=%%n]' % w, ana_param=par(loc=la(mod=num('n'))))
    case('local_analysis=[select=all,lookup=%n,modulo=%m,]', ana_param=par(loc=la('SelectAll', some(num('n')), num('m'))))
    case('local_analysis=none;local_analysis=[lookup=%n]', ana_param=par(loc=la(depth=some(num('n')))))
    case('local_analysis=[lookup=%n];local_analysis=none', ana_param=par(loc=none()))
    case('strategy=DFS;goal=Pass;por=true;memoize=false;analysis_kind=eliminate;local_analysis=none;filters=[max_depth=%n];priorities=[emission=%m]', strategy=R.en(R.strat, 'DFS'), goal=some(R.en(GVd, 'Pass')), use_memoization=F_,
         ana_param=par(R.en(AK, 'Eliminate'), none(), T_), filters=seq([R.en(FI, 'MaxProcessDepth', num('n'))]), priorities=R.prio(PR, **dict(z, elim=I(0), simu=I(0), emission=num('m'))))
    # canonization
    key, OPT = C.f('parse_hcf_file_for_canonize'), C.a('HibouCanonizeOptions')
    dflt = C.call(R.GP, app(C.m('CanonizationPriorities', 'default')), F_)
    R.more.add(C.m('CanonizationPriorities', 'default'))
    base = dict(loggers=seq([]), strategy=R.en(R.strat, 'BFS'), filters=seq([]), priorities=dflt, search_all=F_)
    opts = R.opts = lambda **kw: OK(C.struct(OPT, **dict(base, **kw)))
    wrap = lambda t: '@canonize_option{%s}' % t
    o.append(R.sec(key, wrap('search_all'), lambda A: opts(search_all=T_)))
    for w, v in bools: o.append(R.sec(key, wrap('search_all=' + w), lambda A, v=v: opts(search_all=v)))
    o.append(R.sec(key, wrap('search_all;search_all=false;'), lambda A: opts()))
    for t in ('strategy=DFS', 'memoize=true', 'filters=[max_depth=%n]', 'priorities=[flush=%n]', 'loggers=[tracegen]', 'loggers=[nfait]'): o.append(R.sec(key, wrap(t), lambda A: ERR))
    o += R.loggers(key, wrap, None)
    o.append(R.sec(key, '', lambda A: opts()))
    o.append(R.sec(key, '@explore_option{strategy=HCS}@analyze_option{strategy=HCS}', lambda A: opts()))
    o.append(R.sec(key, wrap('search_all') + wrap('search_all'), lambda A: ERR))
    o.append(R.L.names_obl('names and numbers in the text of configurations', R.start, R.forms))
    return o
