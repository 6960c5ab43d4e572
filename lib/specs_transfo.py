"""Rewriting of interactions: decompositions, language preservation of each rewrite, application in context."""
import time
from base import *
from contract import Result, Asker, deepsettle, consistent, unknown_in, unknown_why, unknown_pc, simp, settle, Delegates
import engine as E
import pp as PPr
from specs_core import BIN

OPS = ('Alt', 'Par', 'Strict', 'Seq', 'CoReg', 'Sync')
POS_OPS = {'alt': 'Alt', 'par': 'Par', 'strict': 'Strict', 'seq': 'Seq', 'coreg': 'CoReg', 'sync': 'Sync'}

def regt(C):
    C.FRAGS = {}
    C.FOLD = {}
    for n, op in POS_OPS.items():
        for d, nm in ((C.FRAGS, 'get_recursive_%s_frags' % n), (C.FOLD, 'fold_recursive_%s_frags' % n)):
            if nm in C.fr: d[C.fr[nm]] = op
    C.XK = C.a('InteractionTransformationKind', 'core::')

# ------------------------------------------------------------------ semantic normal form
class Mismatch(Exception): pass

class Sem:
    """trace-semantic normal form of interaction terms in one partition"""
    def __init__(self, C, pc):
        self.C, self.pc = C, pc
        self.rep = {}
        for a, v in pc.items():
            if a[0] == 'b' and v == (True,) and a[1][0] == 'app' and a[1][1] == 'eq': self.join(*a[1][2])
            elif a[0] == 'cmp' and v == ('Equal',): self.join(a[1], a[2])
        self.unk = []
    def find(self, t):
        while t in self.rep: t = self.rep[t]
        return t
    def join(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b: return
        if (len(rk(a)), rk(a)) > (len(rk(b)), rk(b)): a, b = b, a
        self.rep[b] = a
    def cls(self, t):
        r = self.find(t)
        return [r] + [x for x in self.rep if self.find(x) == r and x != r]
    def same(self, a, b): return a == b or self.find(a) == self.find(b)
    def variant(self, t, adt):
        if t[0] == 'adt': return t[2]
        for x in self.cls(t):
            k = self.pc.known(('disc', x, adt))
            if len(k) == 1: return k[0]
        return None
    def strip(self, L):
        while L[0] == 'app' and L[1] in ('sorted', 'rev', 'sortedby'): L = L[2][0]
        return L
    # -- alternatives of a term
    def nf(self, t): return frozenset(self.canon(r) for r in self.alts(t))
    def alts(self, t):
        C = self.C
        if t[0] == 'app':
            op = C.FOLD.get(t[1])
            if op == 'Alt': return self.altlist(t[2][0])
            if op: return self.prods(op, t[2][0] if op in ('CoReg', 'Sync') else None, self.listitems(t[2][-1], op))
        root = t
        while root[0] == 'fld': root = root[1]
        # elements of lists stay whole: only the argument and constructed terms are unfolded
        v = self.variant(t, C.INT) if t[0] == 'adt' or (root[0] == 'sym' and '#' not in root[1]) else None
        if v is None:
            return [('t', t)] if self.variant(t, C.INT) != 'Empty' else [('u',)]
        f = [fld(t, C.INT, v, k) for k in range(len(C.fields(sym('i', C.INT), v)))] if t[0] != 'adt' else list(t[3])
        if v == 'Empty': return [('u',)]
        if v == 'Alt': return self.alts(f[0]) + self.alts(f[1])
        if v in ('Par', 'Strict', 'Seq'): return self.prods(v, None, [('t', f[0]), ('t', f[1])])
        if v in ('CoReg', 'Sync'): return self.prods(v, f[0], [('t', f[1]), ('t', f[2])])
        if v == 'Loop':
            k, b = f[0], f[1]
            inner = self.nf(b)
            if inner == frozenset([('u',)]): return [('u',)]
            if len(inner) == 1 and list(inner)[0][0] == 'loop':
                (_, k2, in2), = inner
                return [('loop', self.laxer(k, k2), in2)]
            return [('loop', self.kind(k), inner)]
        if v == 'Emission': return self.emission(f[0])
        if v == 'Reception': return self.reception(f[0])
        return [('t', t)]
    def kind(self, k):
        ks = self.kinds(k)
        return mk_adt(self.C.LK, list(ks)[0], []) if len(ks) == 1 else k
    def kinds(self, k):
        if k[0] == 'adt': return {k[2]}
        return set(self.pc.known(('disc', k, self.C.LK)))
    def laxer(self, k, k2):
        """the more permissive of two kinds of repetition"""
        if k == k2: return self.kind(k)
        a, b = self.kinds(k), self.kinds(k2)
        # in this partition the pairs of kinds allowed by what is known of their comparison
        o = self.decide(T.cmp_(k2, k), ('Less', 'Equal', 'Greater'))
        pairs = [(x, y) for x in a for y in b if (LAX.index(y) > LAX.index(x)) - (LAX.index(y) < LAX.index(x)) in {{'Less': -1, 'Equal': 0, 'Greater': 1}[z] for z in o}]
        if pairs and all(LAX.index(y) <= LAX.index(x) for x, y in pairs):
            return mk_adt(self.C.LK, pairs[0][1], []) if len({y for _, y in pairs}) == 1 else k2
        if pairs and all(LAX.index(x) <= LAX.index(y) for x, y in pairs):
            return mk_adt(self.C.LK, pairs[0][0], []) if len({x for x, _ in pairs}) == 1 else k
        return ('min', k, k2)
    def decide(self, t, vals):
        """possible leaves of a decision tree in this partition"""
        out = set()
        def go(t, pc):
            if t[0] == 'ite':
                for v in pc.known(t[1]):
                    p = pc.assume(t[1], [v])
                    if p is not None: go(dict(t[2]).get(v, UNDEF), p)
            else: out.add(t[1] if t[0] in ('vn', 'bool') else t)
        go(t, self.pc)
        return sorted(out, key=str)
    def fields(self, t, adt, con):
        return [self.C.field(t, adt, n) for n in con]
    def emission(self, e):
        C = self.C
        o, m, s, tg = self.fields(e, C.EM, ('origin_lf_id', 'ms_id', 'synchronicity', 'targets'))
        if self.variant(s, C.SY) != 'Asynchronous': return [('em', o, m, s, self.strip(tg))]
        tg = self.strip(tg)
        gates = fm('seq', tg, lambda t: bnot(C.is_lf(t)), lambda t: t)
        recs = fm('seq', tg, C.is_lf, lambda t: C.I('Reception', C.mk_rc(none(), m, C.ASYNC, single('seq', C.lf(t)))))
        return self.prods('Strict', None, [('r', ('em', o, m, C.ASYNC, gates))] + [('t', T.mk_app(C.fr['fold_recursive_par_frags'], (recs,)))])
    def reception(self, e):
        C = self.C
        g, m, s, rc = self.fields(e, C.RC, ('origin_gt_id', 'ms_id', 'synchronicity', 'recipients'))
        rc = self.strip(rc)
        if self.variant(s, C.SY) != 'Asynchronous': return [('rc', g, m, s, rc)]
        if rc[0] == 'coll' and len(rc[2]) == 1 and rc[2][0][0] == 'one': return [('rc', g, m, C.ASYNC, rc)]
        recs = fm('seq', rc, lambda t: TRUE, lambda t: C.I('Reception', C.mk_rc(g, m, C.ASYNC, single('seq', t))))
        return self.prods('Par', None, self.listitems(recs, 'Par'))
    # -- lists
    def altlist(self, L):
        C = self.C
        L = self.strip(L)
        if L[0] == 'coll':
            if not L[2]: return [('u',)]
            out = []
            for g in L[2]:
                if g[0] == 'one': out += self.alts(g[1])
                elif g[0] == 'spread': out += self.altlist(g[1])
                else: out.append(('as', coll(L[1], [g])))
            return out
        if L[0] == 'app' and L[1] in ('setof', 'dedup'): return self.altlist(L[2][0])
        if L[0] == 'app' and C.FRAGS.get(L[1]) == 'Alt': return self.alts(L[2][0])
        return [('as', L)]
    def unitfilter(self, g):
        """for x in L: keep x unless it is the empty interaction"""
        x = fresh()
        b = open_(g[1], g[3], x)
        ok = True
        def go(t, pc):
            nonlocal ok
            if t[0] == 'ite':
                for v in pc.known(t[1]):
                    p = pc.assume(t[1], [v])
                    if p is not None: go(dict(t[2]).get(v, UNDEF), p)
            elif t == ('gens', (('one', x),)): pass
            elif t == ('gens', ()): 
                if pc.known(('disc', x, self.C.INT)) != ('Empty',) and pc.d.get(('b', eq(x, self.C.Empty))) != (True,): ok = False
            else: ok = False
        go(b, self.pc)
        return ok
    def listitems(self, L, op):
        if op == 'Par': L = self.strip(L)
        if L[0] == 'coll':
            out = []
            for g in L[2]:
                if g[0] == 'one': out.append(('t', g[1]))
                elif g[0] == 'spread': out += self.listitems(g[1], op)
                elif self.unitfilter(g): out += self.listitems(g[2], op)
                else: out.append(('s', coll('seq', [g])))
            return out
        return [('s', L)]
    # -- products
    def prods(self, op, cr, items):
        """alternatives of an n-ary product"""
        seqs = [[]]
        for it in items:
            if it[0] == 't': opts = self.alts(it[1])
            elif it[0] == 'r': opts = [it[1]]
            else: opts = [it]
            seqs = [s + [o] for s in seqs for o in opts]
        out = []
        for s in seqs: out += self.one(op, cr, s)
        return out
    def one(self, op, cr, s):
        fl = []
        for x in s:
            if x == ('u',):
                if op == 'Sync': fl.append(x)
            elif x[0] == 'op' and x[1] == op and self.samecr(x[2], cr): fl += list(x[3])
            else: fl.append(x)
        fl = self.glue(op, fl)
        # a spread of the fragments of a term is that term
        for i, x in enumerate(fl):
            if x[0] == 's' and x[1][0] == 'app' and self.C.FRAGS.get(x[1][1]) == op and (op not in ('CoReg', 'Sync') or self.samecr(x[1][2][0], cr)):
                out = []
                for a in self.alts(x[1][2][-1]): out += self.one(op, cr, fl[:i] + [a] + fl[i + 1:])
                return out
        if not fl: return [('u',)]
        if len(fl) == 1 and fl[0][0] != 's': return [fl[0]]
        return [('op', op, cr, tuple(fl))]
    def samecr(self, a, b): return a == b or (a is not None and b is not None and self.same(a, b))
    def glue(self, op, fl):
        """an element and the list it was taken from"""
        changed = True
        while changed:
            changed = False
            for i, x in enumerate(fl):
                if x[0] != 's' or x[1][0] != 'app': continue
                L = x[1]
                if L[1] == 'removeat':
                    el, first, last = self.elem(L[2][0], L[2][1]), L[2][1] == I(0), False
                elif L[1] == 'init':
                    el, first, last = [T.app('last', L[2][0])], False, True
                else: continue
                if any(self.variant(e, self.C.INT) == 'Empty' for e in el) and op != 'Sync':
                    fl = fl[:i] + [('s', L[2][0])] + fl[i + 1:]; changed = True; break
                for j, y in enumerate(fl):
                    if y[0] != 't' or not any(self.same(y[1], e) for e in el): continue
                    if op == 'Par' or (first and j == i - 1) or (last and j == i + 1):
                        fl = [z for k, z in enumerate(fl) if k != j]
                        k = fl.index(x)
                        fl = fl[:k] + self.listitems(L[2][0], op) + fl[k + 1:]
                        changed = True; break
                if changed: break
        return fl
    def elem(self, L, i):
        out = [index(L, i)]
        if i[0] == 'idx': out.append(i[1])
        return out
    def canon(self, r):
        if r[0] == 't': return ('t', self.find(r[1]))
        if r[0] == 'op':
            it = [self.canon(x) for x in r[3]]
            if r[1] == 'Par': it = sorted(it, key=repr)
            return ('op', r[1], self.find(r[2]) if r[2] is not None else None, tuple(it))
        return r

def implied(pc, t):
    """the condition holds throughout the partition"""
    def go(t, pc):
        if t[0] == 'ite':
            for v in pc.known(t[1]):
                p = pc.assume(t[1], [v])
                if p is not None and consistent(p) and not go(dict(t[2]).get(v, UNDEF), p): return False
            return True
        if t[0] == 'bool': return t[1]
        k = pc.d.get(('b', t))
        return k == (True,)
    class A: pass
    a = A(); a.pc = pc
    import contract
    return go(as_dt(simp(t, a)), pc)

def locations(C, x):
    """lifelines of the immediately executable actions"""
    FE = C.a('FrontierElement', 'core::')
    S = C.call(C.f('global_frontier'), x, TRUE)
    y = fresh()
    return set_norm(coll('set', mk_for_over(y, S, 'set', ('gens', gens_of(C.field(y, FE, 'target_lf_ids'), 'set')))))

def relaxations(C, t, res):
    """pairs (condition, rewritten input) under which weaker operators are as strong"""
    v = t
    def one(x):
        rev = locations(C, C.im_('reverse', x[0]))
        fst = locations(C, x[1])
        n = T.length(rev)
        return bor(bor(bnot(nonempty(rev)), bnot(nonempty(fst))), band(band(nonempty(rev), bnot(lt(I(1), n))), eq(rev, fst)))
    if t == 'Strict': return one
    if t == 'Par': return lambda x: disjoint(C.im_('involved_lifelines', x[0]), C.im_('involved_lifelines', x[1]))

def rewrite_check(C, name, key):
    """every interaction returned by the rewriting function has the behaviours of its argument"""
    def run():
        res = Result('rewrite %s' % name)
        t0 = time.time()
        P = C.P
        body = P.bodies[key]
        res.where = '%s:%d' % (body['file'], body['line']); res.fn = key
        voc = set(C.vocab_int) | set(C.FRAGS) | set(C.FOLD) | {C.f('global_frontier')}
        eng = E.Engine(P, voc)
        eng.delegates = Delegates(P)
        eng.hook.update(C.hooks)
        i = C.i()
        try: outc = eng.analyse(key, [i])
        except (E.GiveUp, RecursionError) as e:
            res.undecided.append('analysis stopped: %s' % e); return res
        res.functions = sorted(eng.stats.functions); res.loops = eng.stats.loops
        results = 0
        for kind, val, st in outc:
            res.outcomes += 1
            if kind == 'panic': res.panics += 1; continue
            script = []
            while True:
                A = Asker(eng, st.pc, script)
                try:
                    v = deepsettle(A, val)
                    for t, pc in elements(C, res, A, v):
                        results += 1
                        res.leaves += 1
                        judge(C, res, name, i, t, pc, voc)
                except Exception as e:
                    if e.__class__.__name__ != 'Infeasible': raise
                nxt = None
                for pos, n in reversed(A.alts):
                    if script[pos] + 1 < n: nxt = script[:pos] + [script[pos] + 1]; break
                if nxt is None: break
                script = nxt
        res.wall = time.time() - t0
        return res
    return Obl('rewrite %s' % name, run)

def elements(C, res, A, v, conds=()):
    """interactions of a returned list, with their partitions"""
    if v == EMPTY: return
    if v[0] != 'coll':
        res.undecided.append('%s: returned list not enumerable: %s' % (PPr.short(res.fn), PPr.pt(v))); return
    def gens(gs, pc):
        for g in gs:
            if g[0] == 'one': yield from leafs(g[1], pc)
            elif g[0] == 'for':
                x = fresh()
                yield from walk(open_(g[1], g[3], x), pc)
            else: res.undecided.append('%s: returned list not enumerable: %s' % (PPr.short(res.fn), PPr.pt(g[1])))
    def leafs(t, pc):
        if t[0] == 'ite':
            for val in pc.known(t[1]):
                p = pc.assume(t[1], [val])
                if p is not None: yield from leafs(dict(t[2]).get(val, UNDEF), p)
        elif t != UNDEF:
            l = lift(t)
            if l[0] == 'ite': yield from leafs(l, pc)
            else: yield (l, pc)
    def walk(b, pc):
        if b[0] == 'ite':
            for val in pc.known(b[1]):
                p = pc.assume(b[1], [val])
                if p is not None: yield from walk(dict(b[2]).get(val, UNDEF), p)
        elif b[0] == 'gens': yield from gens(b[1], pc)
    yield from gens(v[2], A.pc)

def judge(C, res, name, i, t, pc, voc):
    if not consistent(pc): res.infeasible += 1; return
    S = Sem(C, pc)
    a, b = S.nf(i), S.nf(t)
    if a == b: return
    # replacement of the root operator by a weaker one under its side condition
    v = S.variant(i, C.INT)
    if v in ('Strict', 'Par') and t[0] == 'adt' and t[1] == C.INT and t[2] == 'Seq':
        x = C.fields(i, v)[-2:]
        if S.nf(C.I(v, *t[3])) == a:
            cond = relaxations(C, v, None)(t[3])
            if implied(pc, cond): return
    unk = unknown_in(t, voc) or unknown_pc(pc, voc)
    msg = '%s: when %s: the interaction is rewritten into %s, whose behaviours are not those of the original one' % (PPr.short(res.fn), PPr.ppc(pc), PPr.pt(t))
    if unk: res.undecided.append(msg + ' [outside the analysed fragment: %s]' % ', '.join(unknown_why(t, voc)))
    else: res.violations.append(msg)

REWRITES = [('Simpl', 'transfo_simpl'), ('FlushRight', 'transfo_flush_right'), ('InvertAlt', 'transfo_invert_alt_sorted'),
            ('InvertPar', 'transfo_invert_par_sorted'), ('Deduplicate', 'transfo_deduplicate'),
            ('FactorizePrefixStrict', 'transfo_factorize_prefix_strict'), ('FactorizePrefixSeq', 'transfo_factorize_prefix_seq'),
            ('FactorizeCommutativePar', 'transfo_factorize_par'), ('FactorizeSuffixStrict', 'transfo_factorize_suffix_strict'),
            ('FactorizeSuffixSeq', 'transfo_factorize_suffix_seq'), ('DeFactorizeLeft', 'transfo_defactorize_left'),
            ('DeFactorizeRight', 'transfo_defactorize_right'), ('LoopSimpl', 'transfo_loop_empty_simpl'), ('LoopUnNest', 'transfo_loop_unnest'),
            ('SortActionContent', 'transfo_sort_action_content'), ('StrictToSeq', 'transfo_strict_to_seq'), ('ParToSeq', 'transfo_par_to_seq'),
            ('UnfoldActions', 'transfo_unfold_action')]

def kind_functions(C):
    """rewriting function of each kind, read from the dispatch of the current tree"""
    out = {}
    key = C.m('InteractionTransformationKind', 'get_transformation')
    eng = E.Engine(C.P, ())
    k = sym('k', C.XK)
    for kind, v, st in eng.analyse(key, [k]):
        if kind != 'ret': continue
        for n in st.pc.known(('disc', k, C.XK)): out[n] = v
    return key, out

def decomposition(C, n, op):
    """the operands of nested operators of one kind, in their order"""
    fk = C.need(C.fr, 'get_recursive_%s_frags' % n)
    two = op in ('CoReg', 'Sync')
    def frags(A, *a):
        i = a[-1]
        if A.var(i, C.INT) != op: return single('seq', i)
        f = C.fields(i, op)
        if two and not A.b(eq(f[0], a[0])): return single('seq', i)
        F = lambda x: C.call(fk, *(list(a[:-1]) + [x]))
        return T.concat('seq', F(f[-2]), F(f[-1]))
    return C.go('fragments of %s' % n, fk, ([sym('acts', 'list')] if two else []) + [C.i()], frags)

@prop('P10')
def p10(C):
    regt(C)
    o = []
    # decompositions
    for n, op in POS_OPS.items():
        two = op in ('CoReg', 'Sync')
        o.append(decomposition(C, n, op))
        if op == 'Sync': continue
        gk = C.need(C.fr, 'fold_recursive_%s_frags' % n)
        cell = ('p', 'frags')
        Fs = sym('frags', 'list')
        def fold(A, *a, op=op, gk=gk, two=two):
            L = Fs
            pre = list(a[:-1])
            if not A.b(nonempty(L)): return C.Empty, {}
            if not A.b(lt(I(1), T.length(L))): return one_of(L), {}
            if not A.b(lt(I(2), T.length(L))): return C.I(op, *(pre + [index(L, I(0)), index(L, I(1))])), {}
            return C.I(op, *(pre + [index(L, I(0)), C.call(gk, *(pre + [T.removeat(L, I(0))]))])), {}
        def one_of(L): return index(L, I(0))
        o.append(C.go('composition of %s' % n, gk, ([sym('acts', 'list')] if two else []) + [('ref', cell, ())], fold, mem={cell: Fs}, canon=popcanon))
    # reversal
    def rev(A, i):
        v = A.var(i, C.INT); f = C.fields(i, v); R = lambda x: C.im_('reverse', x)
        if v in ('Empty', 'Reception'): return i
        if v == 'Emission':
            e = f[0]
            tg = C.em_('targets', e)
            lf = fm('seq', tg, C.is_lf, C.lf)
            if A.b(C.is_async(C.em_('synchronicity', e))) and A.b(nonempty(lf)):
                gt = fm('seq', tg, lambda t: bnot(C.is_lf(t)), lambda t: t)
                return C.I('Strict', C.I('Reception', C.mk_rc(none(), C.em_('ms_id', e), C.ASYNC, lf)),
                           C.I('Emission', C.mk_em(C.em_('origin_lf_id', e), C.em_('ms_id', e), C.ASYNC, gt)))
            return i
        if v == 'Loop': return C.I('Loop', f[0], R(f[1]))
        if v == 'And': return PANIC
        if v in ('Par', 'Alt', 'Sync'):
            # commutative operators: either order
            return C.I(v, *(f[:-2] + [R(f[-1]), R(f[-2])]))
        return C.I(v, *(f[:-2] + [R(f[-1]), R(f[-2])]))
    def comm(A, t):
        if t[0] == 'adt' and t[1] == C.INT and t[2] in ('Par', 'Alt', 'Sync'):
            a, b = sorted(t[3][-2:], key=rk)
            return mk_adt(C.INT, t[2], list(t[3][:-2]) + [a, b])
        return t
    o.append(C.go('reversal', C.need(C.im, 'reverse'), [C.i()], rev, canon=comm))
    # rewrites, as dispatched
    gk, fns = kind_functions(C)
    done = set()
    for n, fn in REWRITES:
        key = C.f(fn, 'core::')
        done.add(key)
        o.append(rewrite_check(C, n, key))
    return o

def popcanon(A, t):
    """elements taken from the end of a list of known length"""
    def go(x):
        if not isinstance(x, tuple): return x
        x = rebuild(x, go)
        if x[0:1] == ('app',) and x[1] in ('last', 'index'):
            L = x[2][0]
            base, cut = L, 0
            while base[0] == 'app' and base[1] == 'init': base, cut = base[2][0], cut + 1
            while base[0] == 'app' and base[1] == 'removeat' and x[1] == 'last' and not cut and A.b(lt(base[2][1], add(T.length(base[2][0]), I(-1)))):
                base = base[2][0]
            if base is not L and base[0] != 'app': x = T.app('last', base)
            n = A.pc.ge.get(((T.length(base), 1),)) if hasattr(A.pc, 'ge') else None
            if n and n[0] is not None and n[0] == n[1]:
                if x[1] == 'last': return go(index(base, I(n[0] - cut - 1)))
                if x[2][1][0] == 'int' and cut: return index(base, x[2][1])
        return x
    return go(t)

@prop('P11')
def p11(C):
    """a rewrite applied inside a term"""
    regt(C)
    RR = C.a('InteractionTransformationResult', 'core::')
    o = []
    ak, ok = C.f('get_all_transformations_rec', 'core::'), C.f('get_one_transformation_rec', 'core::')
    ks = sym('transfos', 'list')
    R = lambda k, p, r: C.struct(RR, kind=k, position=p, result=r)
    F = lambda x, n: C.field(x, RR, n)
    Pn = lambda v, *a: mk_adt(C.POS, v, list(a))
    gt = C.m('InteractionTransformationKind', 'get_transformation')
    def rebuildctx(i, v, f, side):
        """context of the operand"""
        if v == 'Loop': return lambda x: C.I('Loop', f[0], x)
        if side == 'Left': return lambda x: C.I(v, *(f[:-2] + [x, f[-1]]))
        return lambda x: C.I(v, *(f[:-2] + [f[-2], x]))
    def applied(k, i): return T.app('callfn', C.call(gt, k), i)
    def here(i):
        k, x = fresh(), fresh()
        body = ('gens', mk_for_over(x, applied(k, i), 'seq', ('gens', (('one', R(k, Pn('Epsilon', none()), x)),))))
        return coll('seq', mk_for_over(k, ks, 'seq', body))
    def al(A, t, i):
        v = A.var(i, C.INT); f = C.fields(i, v)
        out = here(i)
        ops = []
        if v in BIN + ('Alt', 'And'): ops = [('Left', f[-2]), ('Right', f[-1])]
        elif v == 'Loop': ops = [('Left', f[1])]
        for side, sub in ops:
            ctx = rebuildctx(i, v, f, side)
            out = T.concat('seq', out, fm('seq', C.call(ak, t, sub), lambda x: TRUE, lambda x: R(F(x, 'kind'), Pn(side, F(x, 'position')), ctx(F(x, 'result')))))
        return out
    o.append(C.go('all rewrites of a term', ak, [ks, C.i()], al, more=[ak, gt], observe=as_bag))
    def on(A, t, i):
        k = fresh()
        fires = nonempty(applied(k, i))
        if A.b(mk_exists(k, ks, fires)):
            k0 = T.mk_first(k, ks, fires)
            return some(R(k0, Pn('Epsilon', none()), index(applied(k0, i), I(0))))
        v = A.var(i, C.INT); f = C.fields(i, v)
        ops = []
        if v in BIN + ('Alt', 'And'): ops = [('Left', f[-2]), ('Right', f[-1])]
        elif v == 'Loop': ops = [('Left', f[1])]
        for side, sub in ops:
            s = C.call(ok, t, sub)
            if A.var(s, OPT) == 'Some':
                x = fld(s, OPT, 'Some', 0)
                return some(R(F(x, 'kind'), Pn(side, F(x, 'position')), rebuildctx(i, v, f, side)(F(x, 'result'))))
        return none()
    o.append(C.go('first rewrite of a term', ok, [ks, C.i()], on, more=[ok, gt]))
    return o

def as_bag(t):
    if t[0] == 'ite': return push1(as_bag, t)
    if t[0] == 'coll': return ('coll', t[1], tuple(sorted(t[2], key=rk)))
    return t

PHASES = {'SIMPL': ['Deduplicate', 'Simpl', 'FlushRight', 'InvertPar', 'InvertAlt', 'LoopSimpl', 'LoopUnNest', 'StrictToSeq', 'ParToSeq', 'SortActionContent'],
          'DEFACT': ['DeFactorizeLeft', 'DeFactorizeRight', 'Deduplicate'],
          'SUFF': ['FactorizeSuffixStrict', 'FactorizeSuffixSeq', 'FactorizeCommutativePar', 'Deduplicate'],
          'PREF': ['FactorizePrefixStrict', 'FactorizePrefixSeq', 'FactorizeCommutativePar', 'Deduplicate'],
          'BASIC': ['Simpl', 'LoopSimpl', 'FlushRight', 'InvertPar', 'InvertAlt', 'Deduplicate', 'LoopUnNest'],
          'UNFOLD': ['Simpl', 'LoopSimpl', 'FlushRight', 'InvertPar', 'InvertAlt', 'Deduplicate', 'LoopUnNest', 'UnfoldActions'],
          'TOSEQ': ['Simpl', 'LoopSimpl', 'FlushRight', 'InvertPar', 'InvertAlt', 'Deduplicate', 'LoopUnNest', 'StrictToSeq', 'ParToSeq']}
DEFAULTS = {'Basic': ['BASIC'], 'BasicWithUnfoldActions': ['UNFOLD'], 'BasicWithToSeq': ['TOSEQ'],
            'FivePhases': ['SIMPL', 'DEFACT', 'SIMPL', 'SUFF', 'SIMPL', 'PREF', 'SIMPL']}

def trait_impl(C, suffix, hint=None):
    ks = [k for k in C.P.bodies if k.endswith(suffix) and (hint is None or hint in k)]
    if len(ks) != 1: raise resolve.Missing('%s (%s): %d candidates' % (suffix, hint, len(ks)))
    return ks[0]

@prop('P12')
def p12(C):
    """canonization process"""
    regt(C)
    o = []
    gk = C.m('InteractionTransformationKind', 'get_transformation')
    known = {C.f(fn, 'core::'): n for n, fn in REWRITES}
    expect = {n: C.f(fn, 'core::') for n, fn in REWRITES}
    def run():
        res = Result('dispatch of rewrite kinds')
        res.fn = gk
        res.where = '%s:%d' % (C.P.bodies[gk]['file'], C.P.bodies[gk]['line'])
        k, fns = kind_functions(C)
        for n in sorted(T.DOMS[C.XK]):
            res.leaves += 1
            v = fns.get(n)
            if v is None: res.violations.append('get_transformation: no function for kind %s' % n); continue
            if n not in expect: res.undecided.append('get_transformation: kind %s is not known to the analysis' % n); continue
            if v[0] != 'fn': res.undecided.append('get_transformation: %s: %s' % (n, PPr.pt(v))); continue
            f = v[1]
            if f == expect[n]: continue
            if f in known: res.violations.append('get_transformation: kind %s runs %s, the function of kind %s' % (n, PPr.short(f), known[f]))
            else: res.undecided.append('get_transformation: kind %s runs %s, which is not known to the analysis' % (n, f))
        res.functions = [gk]
        return res
    o.append(Obl('dispatch of rewrite kinds', run))
    PH = C.a('InteractionTransformationPhase', 'core::')
    ph = sym('phase', PH)
    ak, ok = C.f('get_all_transformations_rec', 'core::'), C.f('get_one_transformation_rec', 'core::')
    def gt(A, p, i, g):
        t = C.field(p, PH, 'transfos')
        if A.b(g): return C.call(ak, t, i)
        x = C.call(ok, t, i)
        return single('seq', fld(x, OPT, 'Some', 0)) if A.var(x, OPT) == 'Some' else EMPTY
    pk = C.m('InteractionTransformationPhase', 'get_transfos')
    o.append(C.go('rewrites of a phase', pk, [ph, C.i(), sym('get_all', 'bool')], gt, more=[ak, ok]))
    DP = C.a('DefaultCanonizationProcess')
    def phs(A, d):
        v = A.var(d, DP)
        if v not in DEFAULTS: return ANY
        return coll('seq', [('one', C.struct(PH, transfos=coll('set', [('one', mk_adt(C.XK, n, [])) for n in PHASES[x]]))) for x in DEFAULTS[v]])
    def asset(t):
        # the order of the kinds within a phase is a matter of strategy
        if t[0] == 'coll': return ('coll', t[1], tuple((g[0], asset(g[1])) if g[0] == 'one' else g for g in t[2]))
        if t[0] == 'adt' and t[1] == PH and t[3][0][0] == 'coll': return mk_adt(PH, t[2], [coll('set', t[3][0][2])])
        return t
    o.append(C.go('default processes', C.m('DefaultCanonizationProcess', 'get_phases'), [sym('def', DP)], phs, observe=asset))
    # handler
    NK, SK, CP, RR = C.a('CanonizationNodeKind'), C.a('CanonizationStepKind'), C.a('CanonizationParameterization'), C.a('InteractionTransformationResult', 'core::')
    ctx, par = sym('ctx', ''), sym('param', CP)
    nk = sym('node', NK)
    I_, Ph = C.field(nk, NK, 'interaction'), C.field(nk, NK, 'phase')
    coln = trait_impl(C, '::collect_next_steps', 'canon')
    def collect(A, c, p, n):
        L = C.field(p, CP, 'phases')
        if not A.b(lt(Ph, T.length(L))): return EMPTY
        t = C.call(pk, index(L, Ph), I_, C.field(p, CP, 'get_all'))
        if not A.b(nonempty(t)): return single('seq', mk_adt(SK, 'GoToNextPhase', []))
        return fm('seq', t, lambda x: TRUE, lambda x: mk_adt(SK, 'Transform', [x]))
    o.append(C.go('next steps', coln, [ctx, par, nk], collect, more=[pk]))
    pns = trait_impl(C, '::process_new_step', 'canon')
    b = C.P.bodies[pns]
    gn = 'graph_process_manager_core::delegate::node::GenericNode'
    pst, stp = sym('parent', T_of(b, 3)), sym('step', T_of(b, 4))
    def step(A, c, p, ps, sp, ni, nc):
        par_k = kindfield(C, ps, b, 3)
        sk = kindfield(C, sp, b, 4)
        v = A.var(sk, SK)
        i, phz = C.field(par_k, NK, 'interaction'), C.field(par_k, NK, 'phase')
        if v == 'GoToNextPhase': return C.struct(NK, interaction=i, phase=add(phz, I(1)))
        if v == 'Transform': return C.struct(NK, interaction=C.field(fld(sk, SK, 'Transform', 0), RR, 'result'), phase=phz)
        return ANY
    o.append(C.go('new node', pns, [ctx, par, pst, stp, sym('id', 'u32'), sym('cnt', 'u32')], step))
    LV, GV = C.a('CanonizationLocalVerdict'), C.a('CanonizationGlobalVerdict')
    lv = trait_impl(C, '::get_local_verdict_when_no_child', 'canon')
    o.append(C.go('verdict of a terminal node', lv, [ctx, par, nk], lambda A, c, p, n: C.struct(LV, got_interaction=I_)))
    sv = trait_impl(C, '::get_local_verdict_from_static_analysis', 'canon')
    o.append(C.go('no static verdict', sv, [ctx, par, ('ref', ('p', 'n'), ())], lambda A, c, p, n: none(), mem={('p', 'n'): nk}))
    up = trait_impl(C, '::update_with_local_verdict', 'canon')
    g0, l0 = sym('global', GV), sym('local', LV)
    o.append(C.go('collected results', up, [g0, l0], lambda A, g, l: C.struct(GV, canonized_ints=T.push('seq', C.field(g, GV, 'canonized_ints'), C.field(l, LV, 'got_interaction')))))
    bl = trait_impl(C, '::get_baseline_verdict', 'canon')
    o.append(C.go('no initial result', bl, [], lambda A: C.struct(GV, canonized_ints=EMPTY)))
    flt = trait_impl(C, '::update_knowing_nodes_were_filtered_out', 'canon')
    o.append(C.go('results kept at the end', flt, [g0, sym('f', 'bool')], lambda A, g, f: g))
    gr = trait_impl(C, '::is_goal_reached', 'canon')
    o.append(C.go('no early stop', gr, [g0, sym('goal', '')], lambda A, g, x: FALSE, asbool=True))
    mm = trait_impl(C, '::is_included_for_memoization', 'canon')
    mn = sym('memo', NK)
    o.append(C.go('memoization', mm, [nk, mn], lambda A, n, m: band(eq(C.field(n, NK, 'interaction'), C.field(m, NK, 'interaction')), eq(C.field(n, NK, 'phase'), C.field(m, NK, 'phase'))), asbool=True))
    return o

def T_of(body, i):
    t = body['locals'][i]
    return t[1:].lstrip() if t.startswith('&') and not t.startswith('&mut') else t

GNODE = 'graph_process_manager_core::delegate::node::GenericNode'
GSTEP = 'graph_process_manager_core::queued_steps::step::GenericStep'
def kindfield(C, x, body, i):
    """field `kind` of a node or step of the (pinned, external) process manager"""
    ty = T_of(body, i).split('<')[0]
    if ty == GNODE: return fld(x, GNODE, 'GenericNode', 0)
    if ty == GSTEP: return fld(x, GSTEP, 'GenericStep', 2)
    raise resolve.Missing('type %s' % ty)
