"""Specifications of interactions that are generated at random."""
import itertools, struct, time
from base import *
from specs_core import *
from specs_mut import Watched, opaque_in, in_range
from specs_cli import Cli, ARG, M as MATCHES, arg_hooks, path_hooks
from specs_io import ext
from specs_out import FILES, text, path_of
import engine, models, linear, resolve, pp
from models import RES, OPTION

PERMUTED = ('shuffled', 'rev', 'sorted', 'sortedby')

class Unknown(Exception): pass
class Bad(Exception): pass

def part(v):
    """(list without repetition, first position, position after the last) of which v is the part"""
    if v[0] == 'app':
        if v[1] == 'removeat' and v[2][1] == I(0): return part(T.app('tail', v[2][0]))
        if v[1] in ('init', 'tail', 'slice', 'take', 'skip'):
            b, lo, hi = part(v[2][0])
            if v[1] == 'init': return b, lo, add(hi, I(-1))
            if v[1] == 'tail': return b, add(lo, I(1)), hi
            if v[1] == 'slice': return b, add(lo, v[2][1]), add(lo, v[2][2])
            if v[1] == 'skip': return b, add(lo, v[2][1]), hi
            return b, lo, hi        # (or fewer)
        if v[1] == 'range' or v[1] in PERMUTED: return v, I(0), T.length(v)
    raise Unknown('a part of %s' % pp.pt(v)[:300])

def content(v):
    """bounds of the numbers in a list without repetition"""
    while v[0] == 'app' and v[1] in PERMUTED + ('init', 'tail', 'slice', 'take', 'skip', 'removeat'): v = v[2][0]
    if v[0] == 'app' and v[1] == 'range': return v[2][0], v[2][1]
    raise Unknown('elements of %s' % pp.pt(v)[:300])

def place(e):
    """(list, first position, position after the last) between which e is taken"""
    if e[0] == 'app' and e[1] == 'index':
        b, lo, hi = part(e[2][0])
        return b, add(lo, e[2][1]), add(add(lo, e[2][1]), I(1))
    if e[0] == 'app' and e[1] == 'last':
        b, lo, hi = part(e[2][0])
        return b, add(hi, I(-1)), hi
    if e[0] == 'app' and e[1] == 'first':
        b, lo, hi = part(e[2][0])
        return b, lo, add(lo, I(1))
    raise Unknown('the place of %s' % pp.pt(e)[:300])

def among(cs, e, n):
    """e is below n"""
    if e[0] == 'app' and e[1] == 'sample': lo, hi = e[2][0][2] if e[2][0][0] == 'app' and e[2][0][1] == 'range' else content(e[2][0])
    elif e[0] == 'int': lo, hi = e, add(e, I(1))
    else: lo, hi = content(place(e)[0])
    return linear.entails(cs, linear.ge(lo, I(0))) and linear.entails(cs, linear.ge(n, hi))

class Maker:
    """what one call of the generator of interactions returns"""
    def __init__(self, C):
        self.C = C
        f, a, m = C.f, C.a, C.m
        self.key = f('generate_random_interaction')
        self.SY = a('InteractionGenerationSymbol')
        self.PR = a('InteractionSymbolsProbabilities')
        self.GC = a('GeneralContext')
        self.draw = m('InteractionSymbolsProbabilities', 'get_random_symbol')
        self.basic = m('InteractionSymbolsProbabilities', 'default_basic')
        self.inv = C.R.tm('Interaction', 'InvolvesLifelines', 'involved_lifelines')
        self.g = sym('signature', self.GC)
        self.pr, self.d, self.md = sym('probas', self.PR), sym('depth', 'u32'), sym('max_depth', 'u32')
        self.nlf = T.length(C.field(self.g, self.GC, 'lf_names'))
        self.nms = T.length(C.field(self.g, self.GC, 'ms_names'))
        self.rng = ('p', 'rng')
    def action(self, cs, v, shape):
        C = self.C
        need = lambda ok, msg: ok or self.bad('%s: %s' % (msg, pp.pt(v)[:500]))
        if v[2] == 'Emission':
            e = v[3][0]
            o, ms, sy, tg = (C.field(e, C.EM, n) for n in ('origin_lf_id', 'ms_id', 'synchronicity', 'targets'))
            need(among(cs, o, self.nlf), 'the origin may be no lifeline of the signature')
            if tg[0] != 'coll': raise Unknown('targets %s' % pp.pt(tg)[:300])
            if shape == 'action': need(not tg[2], 'an action with a target')
            if shape == 'one' and len(tg[2]) == 0: need(linear.infeasible(cs + [linear.shift(linear.lin(self.nlf), -2)]), 'a transmission without a target')
            elif shape == 'one': need(len(tg[2]) == 1 and tg[2][0][0] == 'one', 'a transmission with other than one target')
            used = [place(o)] if tg[2] else []
            for t in tg[2]:
                if t[0] == 'one': x, where, val = t[1], None, None
                elif t[0] == 'for':
                    b = fresh()
                    bd = open_(t[1], t[3], b)
                    if bd[0] != 'gens' or len(bd[1]) != 1 or bd[1][0][0] != 'one': raise Unknown('targets %s' % pp.pt(tg)[:300])
                    x, where, val = bd[1][0][1], part(t[2]), b
                else: raise Unknown('targets %s' % pp.pt(tg)[:300])
                if x[0] != 'adt' or x[2] != 'Lifeline': raise Bad('a target that is not a lifeline: %s' % pp.pt(v)[:500])
                e = x[3][0]
                if val is None: here = place(e)
                elif e == val: here = where
                else: raise Unknown('targets %s' % pp.pt(tg)[:300])
                lo, hi = content(here[0])
                need(linear.entails(cs, linear.ge(lo, I(0))) and linear.entails(cs, linear.ge(self.nlf, hi)), 'a target may be no lifeline of the signature')
                for u in used:
                    if u[0] != here[0]: raise Unknown('lists of lifelines')
                    need(linear.entails(cs, linear.ge(u[1], here[2])) or linear.entails(cs, linear.ge(here[1], u[2])), 'the same lifeline may be used twice')
                used.append(here)
        elif v[2] == 'Reception' and shape == 'action':
            r = v[3][0]
            o, ms, sy, rc = (C.field(r, C.RC, n) for n in ('origin_gt_id', 'ms_id', 'synchronicity', 'recipients'))
            need(o == none(), 'an action with an origin')
            if rc[0] != 'coll': raise Unknown('recipients %s' % pp.pt(rc)[:300])
            need(len(rc[2]) == 1 and rc[2][0][0] == 'one', 'a reception by other than one lifeline')
            need(among(cs, rc[2][0][1], self.nlf), 'the recipient may be no lifeline of the signature')
        else: return self.bad('a communication of another kind: %s' % pp.pt(v)[:300])
        need(among(cs, ms, self.nms), 'the message may be none of the signature')
        need(sy == mk_adt(C.SY, 'Asynchronous', []), 'a synchronous communication')
        return True
    def bad(self, msg): raise Bad(msg)
    def again(self, v, pr, d):
        """an interaction generated with these probabilities from this depth on"""
        if opaque_in(v): raise Unknown(pp.pt(v)[:300])
        if v[0] != 'app' or v[1] != self.key: self.bad('an operand is %s' % pp.pt(v)[:300])
        if v[2][:4] != (pr, d, self.md, self.g): self.bad('a part is generated by %s' % pp.pt(('app', v[1], v[2][:4]))[:500])
        return True
    def check(self, pc, v):
        C = self.C
        cs = linear.of_pc(pc) + [linear.ge(self.nlf, I(1)), linear.ge(self.nms, I(1))]
        if linear.infeasible(cs): return
        if v[0] != 'adt' and not (v[0] == 'app' and v[1] == self.key): raise Unknown('returns %s' % pp.pt(v)[:300])
        kind = v[2] if v[0] == 'adt' else 'again'
        if linear.entails(cs, linear.ge(self.d, self.md)):
            if kind not in ('Emission', 'Reception'): self.bad('at the maximal depth, makes %s' % pp.pt(v)[:300])
            return self.action(cs, v, 'action')
        if not linear.infeasible(cs + [linear.ge(self.d, self.md)]): self.bad('the maximal depth plays no part')
        syms = [(a, x) for a, x in pc.items() if a[0] == 'disc' and a[2] == self.SY and a[1][0] == 'app' and a[1][1] == self.draw]
        if len(syms) != 1: raise Unknown('the symbol drawn is not known')
        if syms[0][0][1][2][0] != self.pr: self.bad('the symbol is drawn with other probabilities')
        for s in syms[0][1]: self.made(pc, cs, v, kind, s)
    def made(self, pc, cs, v, kind, s):
        """what is made for a symbol"""
        C = self.C
        deeper = lambda x: self.again(x, self.pr, add(self.d, I(1)))
        if s == 'Empty': return kind == 'Empty' or self.bad('for Empty, makes %s' % pp.pt(v)[:300])
        if s == 'Basic': return self.again(v, app(self.basic), self.d)
        if s in ('Action', 'Transmission', 'Broadcast'):
            if kind not in ('Emission', 'Reception'): self.bad('for %s, makes %s' % (s, pp.pt(v)[:300]))
            return self.action(cs, v, {'Action': 'action', 'Transmission': 'one', 'Broadcast': 'many'}[s])
        if s.startswith('Loop'):
            if kind != 'Loop' or v[3][0] != mk_adt(C.LK, {'LoopS': 'SStrictSeq', 'LoopW': 'WWeakSeq', 'LoopP': 'PInterleaving'}[s], []): self.bad('for %s, makes %s' % (s, pp.pt(v)[:300]))
            return deeper(v[3][1])
        if s in ('Strict', 'Seq', 'Par', 'Alt'):
            if kind != s: self.bad('for %s, makes %s' % (s, pp.pt(v)[:300]))
            return deeper(v[3][0]) and deeper(v[3][1])
        if s == 'Coreg':
            if kind not in ('CoReg', 'Seq'): self.bad('for %s, makes %s' % (s, pp.pt(v)[:300]))
            l, r = v[3][-2:]
            deeper(l); deeper(r)
            both = [app(self.inv, l), app(self.inv, r)]
            if kind == 'Seq':
                # no lifeline is in both
                for x, y in (both, both[::-1]):
                    if pc.resolve(as_dt(T.disjoint(x, y))) == TRUE: return True
                self.bad('a co-region is forgotten although a lifeline is on both sides')
            ls = v[3][0]
            if ls[0] != 'coll' or len(ls[2]) != 1 or ls[2][0][0] != 'one': self.bad('a co-region on %s' % pp.pt(ls)[:300])
            e = ls[2][0][1]
            if e[0] != 'app' or e[1] not in ('index', 'first', 'last'): raise Unknown('lifeline %s' % pp.pt(e)[:300])
            src = e[2][0]
            while src[0] == 'app' and src[1] in PERMUTED: src = src[2][0]
            # every lifeline it is chosen from is on both sides
            x = fresh()
            if src[0] != 'coll' or len(src[2]) != 1 or src[2][0][0] != 'for': raise Unknown('lifelines %s' % pp.pt(src)[:300])
            _, bv, s0, body = src[2][0]
            body = open_(bv, body, x)
            kept = engine.PC()
            def walk(t, known):
                if t[0] == 'ite':
                    for k, c in t[2]: walk(c, known + [(t[1], k)])
                    return
                if t[0] != 'gens': raise Unknown('lifelines %s' % pp.pt(src)[:300])
                for gq in t[1]:
                    if gq[0] != 'one' or gq[1] != x: raise Unknown('lifelines %s' % pp.pt(src)[:300])
                    for b in both:
                        if s0 != b and not any(k is True and a == ('b', T.contains(b, x)) for a, k in known): self.bad('the lifeline of a co-region may be absent from a side')
            walk(body, [])
            return True
        self.bad('an unknown symbol %s' % s)

def generator(C):
    def run():
        m = Maker(C)
        w = Watched(C, 'interactions', m.key, [m.pr, m.d, m.md, m.g, ('ref', m.rng, ())], {m.rng: sym('rng', '')}, opaque=[m.key, m.draw, m.basic, m.inv])
        if w.res.undecided: return w.res
        seen = set()
        for kind, v, s in w.outs:
            cs = linear.of_pc(s.pc) + [linear.ge(m.nlf, I(1)), linear.ge(m.nms, I(1))]
            if kind != 'ret':
                # never stops on a signature with a lifeline and a message
                if v == 'panic' and not linear.infeasible(cs) and not any(len(x) == 1 and a[0] == 'disc' and a[2] == m.SY for a, x in s.pc.items()): w.unknown('may stop when %s' % pp.ppc(s.pc)[:300])
                elif v == 'panic' and not linear.infeasible(cs): w.bad('stops when %s' % pp.ppc(s.pc)[:300])
                elif not linear.infeasible(cs) and not any(a[0] == 'disc' and a[2] == m.SY and 'Coreg' in x for a, x in s.pc.items()): w.bad('stops when %s' % pp.ppc(s.pc)[:500])
                continue
            w.res.leaves += 1
            for a, x in s.pc.items():
                if a[0] == 'disc' and a[2] == m.SY and len(x) == 1: seen.add(x[0])
            try: m.check(s.pc, v)
            except Unknown as e: w.unknown(str(e))
            except Bad as e: w.bad('when %s: %s' % (pp.ppc(s.pc)[:400], e))
        return w.res
    return Obl('interactions', run)

# ------------------------------------------------------------------ probabilities
def f32(x): return struct.unpack('f', struct.pack('f', x))[0]

def numeric(t):
    if t[0] == 'float': return f32(float(t[1].rstrip('f326_')[:] if not t[1].endswith(('f32', 'f64')) else t[1][:-3]))
    if t[0] == 'int': return t[1]
    if t[0] == 'app' and t[1].startswith('f.'):
        a = [numeric(x) for x in t[2]]
        return {'Add': lambda: f32(a[0] + a[1]), 'Sub': lambda: f32(a[0] - a[1]), 'Mul': lambda: f32(a[0] * a[1]), 'Neg': lambda: -a[0],
                'Lt': lambda: a[0] < a[1], 'Gt': lambda: a[0] > a[1], 'Le': lambda: a[0] <= a[1], 'Ge': lambda: a[0] >= a[1], 'Eq': lambda: a[0] == a[1], 'Ne': lambda: a[0] != a[1]}[t[1][2:]]()
    raise Unknown(pp.pt(t)[:200])

def possible(pc):
    """are conditions on constant numbers met"""
    for a, x in pc.items():
        if a[0] == 'b':
            try:
                if numeric(a[1]) not in x: return False
            except (Unknown, KeyError, ValueError): raise Unknown(pp.ppc(pc)[:300])
        else: raise Unknown(pp.ppc(pc)[:300])
    return True

REGULAR = ('default_regular', 'default_high_level_regular', 'default_basic')

def tables(C):
    """the predefined probabilities are accepted, and are probabilities"""
    o = []
    PR, SY = C.a('InteractionSymbolsProbabilities'), C.a('InteractionGenerationSymbol')
    names = ['conservative', 'protocols_with_coreg', 'default_non_regular', 'default_regular', 'default_high_level_regular', 'default_basic']
    for n in names:
        def run(n=n):
            w = Watched(C, 'probabilities ' + n, C.m('InteractionSymbolsProbabilities', n), [], {})
            if w.res.undecided: return w.res
            try:
                left = [(k, v, s) for k, v, s in w.outs if possible(s.pc)]
                for k, v, s in left:
                    w.res.leaves += 1
                    if k != 'ret': w.bad('stops: these are not accepted as probabilities'); continue
                    sy, bd = C.field(v, PR, 'ordered_symbols'), C.field(v, PR, 'ordered_bounds')
                    while sy[0] == 'app' and sy[1] in PERMUTED: sy = sy[2][0]
                    if any(x[0] != 'coll' or any(q[0] != 'one' for q in x[2]) for x in (sy, bd)): raise Unknown(pp.pt(v)[:300])
                    sy = [q[1] for q in sy[2]]
                    bd = [numeric(q[1]) for q in bd[2]]
                    if len(set(sy)) != len(sy): w.bad('the same symbol twice: %s' % [x[2] for x in sy])
                    if len(bd) != len(sy) + 1 or bd[0] != 0 or abs(bd[-1] - 1) > 1e-5 or any(x > y for x, y in zip(bd, bd[1:])): w.bad('bounds %s for %d symbols' % (bd, len(sy)))
                    ks = [x[2] for x in sy]
                    if n in REGULAR and any(k in ('LoopW', 'LoopP') for k in ks): w.bad('a regular language is not repeated otherwise than in sequence: %s' % ks)
                    if n == 'default_basic' and any(k in ('Alt', 'Basic') or k.startswith('Loop') for k in ks): w.bad('basic interactions have no choice and no repetition: %s' % ks)
                    if not any(k in ('Empty', 'Action', 'Transmission', 'Broadcast', 'Basic') for k in ks): w.bad('nothing but operators')
            except Unknown as e: w.unknown(str(e))
            return w.res
        o.append(Obl('probabilities ' + n, run))
    return o

def bounds(C):
    """to each symbol its own interval, as long as its probability, in an order that does not depend on the run"""
    PR, SY = C.a('InteractionSymbolsProbabilities'), C.a('InteractionGenerationSymbol')
    key = C.m('InteractionSymbolsProbabilities', 'from_map')
    o = []
    for n in (1, 2, 3):
        def run(n=n):
            ks = ['Empty', 'Action', 'Strict'][:n]
            ps = [sym('p%d' % k, 'f32') for k in range(n)]
            mp = coll('map', tuple(('one', tup(mk_adt(SY, k, []), p)) for k, p in zip(ks, ps)))
            w = Watched(C, 'intervals of %d symbols' % n, key, [mp], {})
            if w.res.undecided: return w.res
            for k, v, s in w.outs:
                if k != 'ret' or v[2] != 'Ok': continue
                w.res.leaves += 1
                r = v[3][0]
                sy, bd = C.field(r, PR, 'ordered_symbols'), C.field(r, PR, 'ordered_bounds')
                if any(x[0] != 'coll' or any(q[0] != 'one' for q in x[2]) for x in (sy, bd)): w.unknown(pp.pt(r)[:300]); continue
                sy, bd = [q[1] for q in sy[2]], [q[1] for q in bd[2]]
                if sorted(x[2] for x in sy if x[0] == 'adt') != sorted(ks): w.bad('symbols %s' % [pp.pt(x) for x in sy]); continue
                if len(bd) != n + 1: w.bad('%d bounds for %d symbols' % (len(bd), n)); continue
                if bd[0][0] != 'float' or numeric(bd[0]) != 0: w.bad('the first interval starts at %s' % pp.pt(bd[0])); continue
                for j, x in enumerate(sy):
                    p = ps[ks.index(x[2])]
                    if bd[j + 1] not in (app('f.Add', bd[j], p), app('f.Add', p, bd[j])) and not (j == 0 and bd[1] == p): w.bad('the interval of %s ends at %s' % (x[2], pp.pt(bd[j + 1])[:300]))
            return w.res
        o.append(Obl('intervals of %d symbols' % n, run))
    def order():
        mp = sym('map', 'HashMap')
        ty = C.P.bodies[key]['locals'][1]
        w = Watched(C, 'order of the symbols', key, [mp], {})
        if w.res.undecided: return w.res
        for k, v, s in w.outs:
            if k != 'ret' or v[2] != 'Ok': continue
            w.res.leaves += 1
            sy = C.field(v[3][0], PR, 'ordered_symbols')
            if sy[0] == 'app' and sy[1] in ('sorted', 'sortedby'): continue
            if sy[0] == 'coll' and len(sy[2]) == 1 and sy[2][0][0] in ('for', 'spread'):
                src = sy[2][0][2] if sy[2][0][0] == 'for' else sy[2][0][1]
                if src == mp and any('BTree' in l for l in C.P.bodies[key]['locals']): w.unknown('the order of the symbols')
                elif src == mp and 'HashMap<' in ty: w.bad('the symbols are in the order of a hash map, which is not the same in two runs: the seed does not decide what is generated')
                elif src != mp and not (src[0] == 'app' and src[1] in ('sorted', 'sortedby')): w.unknown('order of %s' % pp.pt(sy)[:300])
            else: w.unknown('order of %s' % pp.pt(sy)[:300])
        return w.res
    o.append(Obl('order of the symbols', order))
    def draw():
        self_ = sym('self', PR)
        c = ('p', 'rng')
        w = Watched(C, 'symbol drawn', C.m('InteractionSymbolsProbabilities', 'get_random_symbol'), [self_, ('ref', c, ())], {c: sym('rng', '')})
        if w.res.undecided: return w.res
        sy, bd = C.field(self_, PR, 'ordered_symbols'), C.field(self_, PR, 'ordered_bounds')
        for k, v, s in w.outs:
            if k != 'ret': continue
            w.res.leaves += 1
            if v[0] != 'app' or v[1] != 'index': w.unknown('draws %s' % pp.pt(v)[:300]); continue
            if v[2][0] != sy: w.bad('draws %s' % pp.pt(v)[:300]); continue
            found = []
            mentions_any(('tup', tuple(a[1] for a, x in s.pc.items() if len(a) > 1 and isinstance(a[1], tuple)) + (v,)), lambda t: t[0] in ('idx',) and found.append(t))
            found = list(dict.fromkeys(found))
            if len(found) != 1 or found[0][1][2] != bd: w.unknown('draws %s' % pp.pt(v)[:300]); continue
            i, j = found[0], v[2][1]
            cs = linear.of_pc(s.pc) + [linear.ge(i, I(0)), linear.ge(T.length(bd), add(i, I(1)))]
            if linear.infeasible(cs): continue
            first = cs + [linear.ge(I(0), i)]
            ok = linear.infeasible(first) or linear.entails(first, linear.ge(j, I(0))) and linear.entails(first, linear.ge(I(0), j))
            later = cs + [linear.ge(i, I(1))]
            ok = ok and (linear.infeasible(later) or all(linear.entails(later, q) for q in (linear.ge(j, add(i, I(-1))), linear.ge(add(i, I(-1)), j))))
            if not ok: w.bad('when %s: between bounds i-1 and i, draws the symbol number %s' % (pp.ppc(s.pc)[:300], pp.pt(j)[:200]))
            up = []
            mentions_any(i, lambda t: t[0] == 'app' and t[1] in ('f.Le', 'f.Lt', 'f.Ge', 'f.Gt') and up.append(t))
            # the first bound that is not below the number drawn
            from_ = lambda t: mentions_any(t, lambda x: x[0] == 'app' and x[1] == 'sample')
            if len(up) == 1 and (from_(up[0][2][0]) != (up[0][1] in ('f.Le', 'f.Lt'))): w.bad('takes the first bound below the number drawn')
        return w.res
    o.append(Obl('symbol drawn', draw))
    return o

# ------------------------------------------------------------------ large enough, different ones
def large_enough(C):
    f = C.f
    gen, can, mets, dr = f('generate_random_interaction'), f('canonize_interaction'), C.m('InteractionMetrics', 'extract_from_interaction'), f('draw_interaction')
    g, md, mn, pr = sym('gen_ctx', C.a('GeneralContext')), sym('max_depth', 'u32'), sym('min_symbols', 'u32'), sym('probas', C.a('InteractionSymbolsProbabilities'))
    c = ('p', 'rng')
    r = sym('rng', '')
    DC = C.a('DefaultCanonizationProcess')
    num = C.m('InteractionMetrics', 'get_num_symbols')
    def spec(A, *a):
        i = app(gen, pr, I(0), md, g, r)
        k = app(can, g, i, mk_adt(DC, 'BasicWithToSeq', []))
        b = fresh()
        n = T.mk_sum(b, C.field(app(mets, k), C.a('InteractionMetrics'), 'symbols'), fld(b, 'tuple', None, 1))
        return (some(k) if A.b(le(mn, n)) else none()), {c: r}
    return C.go('large enough', f('generate_canonical_random_interaction'), [g, ('ref', c, ()), md, mn, pr], spec, more=[gen, can, mets, dr], mem={c: r}, panics='ignore',
                hooks={gen: lambda eng, st, info, a: [('ret', app(gen, *[eng.deep(st, x) for x in a]), st)]})

def command(C):
    """the interactions written are different, numbered, large enough, and no more than asked for"""
    K = Cli(C)
    cmd = 'rng_gen_interactions'
    def run():
        if cmd not in K.cmds: raise resolve.Missing('command ' + cmd)
        args = K.cmds[cmd]
        gen, hif = C.f('generate_canonical_random_interaction'), C.f('interaction_to_hif')
        pm = {n: C.m('InteractionSymbolsProbabilities', n) for n in ('conservative', 'protocols_with_coreg', 'default_non_regular')}
        key = C.f('cli_rng_gen_interactions')
        total = None
        free = [n for n in args if not args[n][1] and args[n][0]]
        for case in itertools.product((False, True), repeat=len(free)):
            given = {n for n, b in zip(free, case) if b}
            h = arg_hooks(C, args); h.update(path_hooks())
            def there(n): return args[n][1] or n in given
            def value(eng, st, info, a):
                t = eng.deep(st, a[1])
                if t[0] != 'str' or t[1] not in args: raise engine.GiveUp('name of an argument')
                return [('ret', some(ARG(t[1])) if there(t[1]) else none(), st)]
            def present(eng, st, info, a):
                t = eng.deep(st, a[1])
                if t[0] != 'str' or t[1] not in args: raise engine.GiveUp('name of an argument')
                return [('ret', B(there(t[1])), st)]
            h[ext(C, 'ArgMatches', 'value_of')] = value
            try: h[ext(C, 'ArgMatches', 'is_present')] = present
            except resolve.Missing: pass
            h['core::str::<impl str>::parse'] = lambda eng, st, info, a: [('ret', app('number', K.norm(eng.deep(st, a[0]))), st)]
            h[hif] = lambda eng, st, info, a: [('ret', UNIT, models.event(st, 'hif', *[eng.deep(st, x) for x in a]))]
            w = Watched(C, 'command', key, [MATCHES], {FILES: EMPTY}, opaque=[gen, hif] + list(pm.values()) + K.readers + [K.err], hooks=h, watch=lambda st, M, kinds: FILES in M)
            if total is None: total = w.res
            else:
                for n in ('violations', 'undecided'):
                    for x in getattr(w.res, n):
                        if x not in getattr(total, n): getattr(total, n).append(x)
                total.wall += w.res.wall; total.outcomes += w.res.outcomes
                w.res = total
            if not total.undecided: one(w, given, gen, pm)
            if total.violations or total.undecided: break
        return total
    def one(w, given, gen, pm):
        def num(n, default): return fld(app('number', ARG(n)), RES, 'Ok', 0) if n in given else I(default)
        n, depth, least, seed = num('num_ints', 350), num('max_depth', 10), num('min_symbols', 100), num('seed', 0)
        folder = ARG('folder') if 'folder' in given else ('str', 'gen_ints')
        ctx = fld(app(K.readers[0], ARG('hsf')), RES, 'Ok', 0)
        if not w.loops: w.unknown('no repetition found'); return
        for _, uid, st, MM, kinds, backs, exits in w.loops:
            lv = lambda c: ('lv', uid, c)
            base = linear.of_pc(st.pc)
            plain = [c for c in MM if kinds.get(c) != 'it' and c != FILES]
            val = lambda s, c: w.eng.deep(s, s.mem[c])
            # --- which probabilities
            pr = None
            if 'probas' not in given: pr = 'default_non_regular'
            else:
                known = [k for k in ('conservative', 'protocols_with_coreg', 'default') if st.pc.resolve(as_dt(eq(ARG('probas'), ('str', k)))) == TRUE]
                if len(known) != 1: w.unknown('the probabilities asked for are not known when %s' % pp.ppc(st.pc)[:300]); return
                pr = known[0] if known[0] in pm else 'default_non_regular'
            before = st.mem[FILES]
            if before != coll('seq', (('one', tup(('str', 'mkdir'), folder)),)): w.bad('before, writes %s' % pp.pt(before)[:300]); return
            rngs = [c for c in plain if st.mem[c] == app('rng', seed)]
            if not rngs: w.bad('the seed plays no part'); return
            sets = [c for c in plain if st.mem[c][0] == 'coll' and not st.mem[c][2]]
            steps = []
            for s in backs:
                f = val(s, FILES)
                if f == lv(FILES): steps.append((s, None)); continue
                if opaque_in(f): w.unknown('writes %s' % pp.pt(f)[:300]); return
                ok = f[0] == 'coll' and len(f[2]) == 2 and f[2][0] == ('spread', lv(FILES)) and f[2][1][0] == 'one' and f[2][1][1][0] == 'tup' and f[2][1][1][1][0] == ('str', 'hif')
                if not ok: w.bad('one turn writes %s' % pp.pt(f)[:600]); return
                steps.append((s, f[2][1][1][1][1:]))
            w.res.leaves += len(steps)
            if not any(x for _, x in steps): w.bad('writes nothing'); return
            number = None
            for s, x in steps:
                if x is None: continue
                p, g2, i = x
                if g2 != ctx: w.bad('writes with other declarations'); return
                if i[0] != 'fld' or i[1][0] != 'app' or i[1][1] != gen: w.bad('writes %s' % pp.pt(i)[:300]); return
                a = i[1][2]
                if a[0] != ctx or a[2:] != (depth, least, app(pm[pr])): w.bad('generates %s' % pp.pt(('app', gen, (a[0],) + a[2:]))[:600]); return
                if a[1] not in [lv(c) for c in rngs]: w.bad('the generator of numbers is not the one made from the seed: %s' % pp.pt(a[1])[:300]); return
                # different from what was written before
                ok = False
                for c in sets:
                    if s.pc.resolve(as_dt(contains(lv(c), i))) != FALSE: continue
                    if all(keeps(val(s2, c), lv(c)) if x2 is None else holds(s2.pc, val(s2, c), lv(c), x2[2]) for s2, x2 in steps): ok = True
                if not ok: w.bad('when %s: the same interaction may be written twice' % pp.ppc(s.pc)[:300]); return
                # numbered from 0
                ts = [lv(c) for c in plain if st.mem[c] == I(0)] + [T.length(lv(c)) for c in sets]
                ts = [t for t in ts if p == path_of(folder, text('i', app('show', t), '.hif'))]
                if not ts: w.bad('writes the file %s' % pp.pt(p)[:300]); return
                number = ts[0]
            if number[0] == 'lv':
                for s, x in steps:
                    if val(s, number[2]) != add(number, I(1 if x else 0)): w.bad('when %s: the number becomes %s' % (pp.ppc(s.pc)[:300], pp.pt(val(s, number[2]))[:200])); return
            # what counts the files written
            counts = [number] + [lv(c) for c in plain if st.mem[c] == I(0) and all(val(s, c) == add(lv(c), I(1 if x else 0)) for s, x in steps)]
            for s, x in steps:
                if x and not any(linear.entails(linear.of_pc(s.pc), linear.shift(linear.ge(n, q), -1)) for q in counts): w.bad('may write more than is asked for'); return
            # gives up after so many failures
            if 'num_tries' in given: tries = [num('num_tries', 0)]
            else:
                tries = [mul(n, I(3))]
                def thrice(t):
                    if t[0] == 'app' and t[1].split('::')[-1] == 'saturating_mul' and set(t[2]) == {n, I(3)} and t not in tries: tries.append(t)
                for t in [st.mem[c] for c in plain] + [a for s, x in steps for a, _ in s.pc.items()]: mentions_any(t, thrice)
            fails = [(s, x) for s, x in steps if x is None]
            left = [c for c in plain if any(st.mem[c] == t for t in tries) and
                    all(val(s, c) == (lv(c) if x else add(lv(c), I(-1))) for s, x in steps)]
            up = [c for c in plain if st.mem[c] == I(0) and fails and all(val(s, c) == (lv(c) if x else add(lv(c), I(1))) for s, x in steps)]
            good = None
            for c in left:
                if all(linear.entails(linear.of_pc(s.pc), linear.shift(linear.lin(lv(c)), -2)) for s, x in fails): good = c, linear.shift(linear.ge(I(0), lv(c)), 1)
            for c in up:
                for t in tries:
                    if all(linear.entails(linear.of_pc(s.pc), linear.shift(linear.ge(t, lv(c)), -2)) for s, x in fails): good = c, linear.shift(linear.ge(lv(c), t), 1)
            if good is None: w.bad('nothing limits the number of failures as asked for'); return
            for e in exits:
                s = e[2]
                cs = linear.of_pc(s.pc)
                if linear.infeasible(cs) or any(linear.entails(cs, linear.ge(q, n)) for q in counts) or linear.entails(cs, good[1]): continue
                f = val(s, FILES)
                if f != lv(FILES): w.bad('the last turn writes %s' % pp.pt(f)[:300]); return
                w.bad('when %s: stops before' % pp.ppc(s.pc)[:500]); return
        for k, v, s in w.outs:
            if k != 'ret': continue
            w.res.leaves += 1
            done = s.mem[FILES]
            if done == EMPTY:
                if v[1][1] != I(1): w.bad('when %s: does nothing and reports success' % pp.ppc(s.pc)[:300]); return
                fails_ = [a for a, x in s.pc.items() if a[0] == 'disc' and x == ('Err',)]
                if not fails_ and not ('probas' in given and all(s.pc.resolve(as_dt(eq(ARG('probas'), ('str', q)))) == FALSE for q in ('conservative', 'protocols_with_coreg', 'default'))):
                    w.bad('when %s: does nothing' % pp.ppc(s.pc)[:300]); return
            elif done[0] == 'top':
                if v[1][1] != I(0): w.bad('when %s: reports a failure' % pp.ppc(s.pc)[:300]); return
            else: w.bad('when %s: writes %s' % (pp.ppc(s.pc)[:300], pp.pt(done)[:300])); return
    return Obl('command', run)

def keeps(v, old):
    """the collection with all that it had"""
    if v[0] == 'ite': return all(keeps(c, old) for _, c in v[2])
    return v == old or v[0] == 'coll' and ('spread', old) in v[2]

def holds(pc, v, old, x):
    """the collection with one more element"""
    v = pc.resolve(v)
    return v[0] == 'coll' and ('spread', old) in v[2] and ('one', x) in v[2]

@prop('P36')
def p36(C):
    """interactions generated at random"""
    return [generator(C)] + tables(C) + bounds(C) + [large_enough(C), command(C)]
