"""Specifications of what is chosen at random: slices and mutants of multi-traces."""
import time
from base import *
from specs_core import *
from specs_ana import ana
from specs_out import FILES, files, text, path_of, domain_of, bind
import contract, engine, models, linear, resolve, pp

class Watched:
    """summary of a root function together with the loops and the calls met on the way"""
    def __init__(self, C, cid, key, args, mem, opaque=(), hooks=None, watch=None):
        self.res = contract.Result(cid)
        self.res.fn = key
        b = C.P.bodies[key]
        self.res.where = '%s:%d' % (b['file'], b['line'])
        self.loops, self.outs = [], []
        t0 = time.time()
        eng = self.eng = engine.Engine(C.P, (C.vocab_int - {key}) | set(opaque))
        eng.delegates = contract.Delegates(C.P)
        eng.hook.update(C.hooks); eng.hook.update(hooks or {})
        if watch: eng.watch = lambda *a: self.note(watch, *a)
        try: self.outs = eng.analyse(key, args, mem)
        except engine.GiveUp as e: self.res.undecided.append('%s: analysis stopped (%s)' % (pp.short(key), e))
        except RecursionError: self.res.undecided.append('%s: recursion limit' % pp.short(key))
        self.res.functions = sorted(eng.stats.functions)
        self.res.loops, self.res.blocks, self.res.outcomes = eng.stats.loops, eng.stats.blocks, len(self.outs)
        self.res.wall = time.time() - t0
    def note(self, watch, key, h, uid, st, M, kinds, backs, exits):
        if not watch(st, M, kinds): return False
        self.loops.append((key, uid, st, M, kinds, backs, exits))
        return True
    def bad(self, msg): self.res.violations.append('%s: %s' % (pp.short(self.res.fn), msg))
    def unknown(self, msg): self.res.undecided.append('%s: %s' % (pp.short(self.res.fn), msg))

def opaque_in(t):
    return mentions_any(t, lambda x: x[0] in ('top', 'undef', 'uninit') or (x[0] == 'app' and x[1].startswith('?')))

def in_range(cs, x, lo, hi):
    return all(linear.entails(cs, c) for c in (linear.ge(x, lo), linear.shift(linear.ge(hi, x), -1)))

def pos_of(i):
    """a position taken from a list of positions is one of them"""
    if i[0] == 'app' and i[1] == 'index':
        v = i[2][0]
        while v[0] == 'app' and v[1] in ('shuffled', 'rev', 'sorted'): v = v[2][0]
        if v[0] == 'app' and v[1] == 'range': return T.app('sample', v, ('str', 'element'))
    return i

@prop('P31')
def p31(C):
    """mutants of multi-traces"""
    N = ana(C)
    o = []
    g, co, mt, mt2 = sym('gen_ctx', C.a('GeneralContext')), sym('co_localizations', N.CO), sym('multi_trace', ''), sym('other_multi_trace', '')
    par, name, limit = sym('parent_folder', ''), sym('mutant_name', 'str'), sym('limit', 'u32')
    single, at_end = sym('one_per_component', 'bool'), sym('only_at_end', 'bool')
    htf = C.f('write_multi_trace_into_file')
    def written(eng, st, info, args): return [('ret', UNIT, models.event(st, 'multi-trace', *[eng.deep(st, a) for a in args]))]
    locs = N.locs(co)
    TK = C.a('TraceActionKind', 'core::')
    msnum = [k for k in (C.m('GeneralContext', 'get_ms_num'),)]
    nms = app(msnum[0], g)
    def removal(pc, cs, i, old, new):
        return new[0] == 'app' and new[1] == 'removeat' and new[2][0] == old
    def insertion(pc, cs, i, old, new):
        if new[0] == 'app' and new[1] == 'insertat' and new[2][0] == old:
            v = new[2][2]
            if len(pc.known(('b', at_end))) != 1 or pc.known(('b', at_end)) == (True,):
                if new[2][1] != T.length(old): return False
        elif new[0] == 'coll' and len(new[2]) == 2 and new[2][0] == ('spread', old) and new[2][1][0] == 'one': v = new[2][1][1]
        else: return False
        if v[0] != 'coll' or len(v[2]) != 1 or v[2][0][0] != 'one': return False
        a = v[2][0][1]
        lf, ms = C.field(a, C.TA, 'lf_id'), C.field(a, C.TA, 'ms_id')
        here = T.app('index', locs, i)
        # the lifeline is one of those of the component, the message one of those of the signature
        ok = lf[0] == 'app' and lf[1] == 'index' and lf[2][0] == here and in_range(cs, pos_of(lf[2][1]), I(0), T.length(here))
        return ok and in_range(cs, pos_of(ms), I(0), nms)
    def swap(pc, cs, i, old, new):
        if new[0] == 'app' and new[1] == 'swapped' and new[2][0] == old: return True
        if new[0] != 'app' or new[1] != 'setindex' or new[2][0][0] != 'app' or new[2][0][1] != 'setindex' or new[2][0][2][0] != old: return False
        (_, b, y), (_, a, x) = new[2], new[2][0][2]
        return (x, y) == (T.app('index', old, b), T.app('index', old, a))
    def exchange(pc, cs, i, old, new): return new == T.app('index', mt2, i)
    def run(cid, key, args, edit, once=None):
        def judge(w):
            for key_, uid, st, M, kinds, backs, exits in w.loops:
                cells = [c for c in M if kinds.get(c) != 'it' and st.mem[c] == mt]
                c = cells[0]; lv = ('lv', uid, c)
                steps = []
                for s in backs:
                    v = w.eng.deep(s, s.mem[c])
                    cs = linear.of_pc(s.pc)
                    if v == lv: steps.append((s, False, None)); continue
                    if opaque_in(v): w.unknown('an edit outside the analysed fragment: %s' % pp.pt(v)[:300]); return
                    i = v[2][1] if v[0] == 'app' and v[1] == 'setindex' and v[2][0] == lv else None
                    if i is None or not edit(s.pc, cs, i, T.app('index', lv, i), v[2][2]):
                        w.bad('when %s: a step turns the multi-trace into %s, which is not an edit of that kind' % (pp.ppc(s.pc)[:600], pp.pt(v)[:900])); return
                    steps.append((s, True, i))
                w.res.leaves += len(steps)
                if not any(e for _, e, _ in steps): continue
                # what bounds the number of edits
                def counts(k):
                    lk = ('lv', uid, k)
                    for s, e, _ in steps:
                        v = s.mem[k]
                        if v != add(lk, I(-1)) and (e or v != lk): return False
                        if v != lk and not linear.entails(linear.of_pc(s.pc), linear.shift(linear.lin(lk), -1)): return False
                    return True
                def ups(k):
                    lk = ('lv', uid, k)
                    for s, e, _ in steps:
                        v = s.mem[k]
                        if v != add(lk, I(1)) and (e or v != lk): return None
                    return True
                base = linear.of_pc(st.pc)
                num = [k for k in M if kinds.get(k) != 'it' and k != c]
                ok = False
                for k in num:
                    try:
                        if counts(k) and linear.entails(base, linear.ge(limit, st.mem[k])): ok = True
                        # counted upwards as long as it is below a number that does not exceed the limit
                        if ups(k) and st.mem[k] == I(0):
                            lk = ('lv', uid, k)
                            if all(not e or linear.entails(linear.of_pc(s.pc), linear.shift(linear.ge(limit, lk), -1)) for s, e, _ in steps): ok = True
                    except linear.NotLinear: pass
                for k in M:
                    if kinds.get(k) == 'it':
                        try:
                            v = st.mem[k]
                            if linear.entails(base, linear.ge(limit, T.length(v))): ok = True
                            # (the limit is not negative)
                            if v[0] == 'app' and v[1] == 'range' and linear.entails(base, linear.ge(limit, sub(v[2][1], v[2][0]))): ok = True
                        except linear.NotLinear: pass
                if not ok: w.bad('nothing keeps the number of edits within the given maximum'); return
                if once is not None and w.eng and st.pc.known(('b', once)) != (False,):
                    good = [k for k in M if kinds.get(k) != 'it' and st.mem[k][0] == 'coll' and not st.mem[k][2] and
                            all(s.pc.known(('b', once)) == (False,) or not e or
                                (s.pc.resolve(as_dt(contains(('lv', uid, k), i))) == FALSE and
                                 s.mem[k] == set_norm(coll('set', (('one', i), ('spread', ('lv', uid, k)))))) for s, e, i in steps)]
                    if not good: w.bad('when %s: a component may be edited several times' % pp.ppc(st.pc)[:300]); return
            for kind, v, s in w.outs:
                if kind != 'ret': continue
                w.res.leaves += 1
                ev = s.mem[FILES]
                some = s.pc.known(('disc', par, OPT))
                if len(some) != 1: w.bad('the parent folder plays no part'); return
                f = text(name, '.htf')
                d = fld(par, OPT, 'Some', 0)
                p = path_of(d, f) if some == ('Some',) else path_of(f)
                ev_ = [x[1] for x in ev[2] if x[0] == 'one'] if ev[0] == 'coll' else None
                want = ([tup(('str', 'mkdir'), d)] if some == ('Some',) else [])
                if ev_ is None or ev_[:-1] != want or not ev_[-1:] or ev_[-1][0] != 'tup' or ev_[-1][1][:4] != (('str', 'multi-trace'), p, g, co):
                    w.bad('when %s: writes %s' % (pp.ppc(s.pc)[:300], pp.pt(ev)[:900])); return
                m = ev_[-1][1][4]
                if not (m == mt or m[0] == 'top' and any(m == ('top', 'loop', l[1], c) for l in w.loops for c in l[3] if l[4].get(c) != 'it' and l[2].mem[c] == mt)):
                    (w.unknown if opaque_in(m) else w.bad)('when %s: writes the multi-trace %s' % (pp.ppc(s.pc)[:300], pp.pt(m)[:600])); return
            if not w.loops: w.unknown('no repetition of edits found')
        def go():
            w = Watched(C, cid, key, args, {FILES: EMPTY}, opaque=[htf] + msnum, hooks={htf: written},
                        watch=lambda st, M, kinds: any(kinds.get(c) != 'it' and st.mem[c] == mt for c in M))
            if not w.res.undecided:
                try: judge(w)
                except engine.GiveUp as e: w.unknown(str(e))
            return w.res
        o.append(Obl(cid, go))
    f = lambda n: C.f('generate_%s_mutant' % n)
    run('removed actions', f('remove_actions'), [g, co, mt, par, name, limit], removal)
    run('inserted actions', f('insert_noise'), [g, co, mt, par, name, limit, single, at_end], insertion, once=single)
    run('swapped actions', f('swap_actions'), [g, co, mt, par, name, limit], swap)
    run('exchanged components', f('swap_components'), [g, co, mt, mt2, par, name, limit], exchange)
    return o

def random_slices(C, N, htf):
    """every multi-trace written is made of a part of each component, of the kind asked for and as long as asked for"""
    SK = C.a('SliceKind')
    g, co, dr, pre, mt = sym('gen_ctx', C.a('GeneralContext')), sym('co_localizations', N.CO), sym('dir_name', 'str'), sym('prefix', 'str'), sym('multi_trace', '')
    kind, wide, cn = sym('kind', SK), sym('wide', 'bool'), ('p', 'num_slices')
    n = sym('num_slices', 'u32')
    key = C.f('get_random_slicing')
    def written(eng, st, info, args):
        eng.notes.append((st.pc, [eng.deep(st, a) for a in args]))
        return [('ret', UNIT, st)]
    def part_of(w, pc, x, e, cs, knd, wd):
        """e is a part of the component x under the constraints"""
        if e[0] == 'ite':
            for v, c in e[2]:
                k, d = knd, wd
                if e[1] == ('disc', kind, SK): k = (v,)
                elif e[1] == ('b', wide): d = (v,)
                else:
                    cs2 = cs + linear.of_atom(e[1], (v,))
                    if not part_of(w, pc, x, c, cs2, knd, wd): return False
                    continue
                if (e[1] == ('disc', kind, SK) and v not in knd) or (e[1] == ('b', wide) and v not in wd): continue
                if not part_of(w, pc, x, c, cs, k, d): return False
            return True
        if e == UNDEF or linear.infeasible(cs): return True
        l = T.length(x)
        if e == ('gens', (('one', x),)): lo, hi = I(0), l
        elif e == ('gens', (('one', EMPTY),)): lo = hi = I(0)
        elif e[0] == 'gens' and len(e[1]) == 1 and e[1][0][0] == 'one':
            v = e[1][0][1]
            if v[0] == 'ite': return part_of(w, pc, x, ('ite', v[1], tuple((k, ('gens', (('one', c),))) for k, c in v[2])), cs, knd, wd)
            if v[0] != 'app' or v[1] != 'slice' or v[2][0] != x: return None
            lo, hi = v[2][1:]
            for b in (lo, hi):
                its = []
                mentions_any(b, lambda t: t[0] == 'ite' and its.append(t))
                if its: return part_of(w, pc, x, ('ite', its[0][1], tuple((k, ('gens', (('one', subst(v, {its[0]: c})),))) for k, c in its[0][2])), cs, knd, wd)
        else: return None
        w.res.leaves += 1
        cs = cs + [linear.ge(l, I(0))]
        for c in (linear.ge(lo, I(0)), linear.ge(hi, lo), linear.ge(l, hi)):
            if not linear.entails(cs, c): return False
        some = cs + [linear.shift(linear.ge(hi, lo), -1)]
        for k in knd:
            if k == 'Prefix' and not linear.entails(some, linear.ge(I(0), lo)): return False
            if k == 'Suffix' and not linear.entails(some, linear.ge(hi, l)): return False
        if True in wd and not linear.entails(cs, linear.ge(mul(sub(hi, lo), I(3)), l)): return False
        return True
    def go():
        w = Watched(C, 'random slices', key, [g, co, dr, pre, ('ref', cn, ()), mt, kind, wide], {cn: n}, opaque=[htf], hooks={htf: written},
                    watch=lambda st, M, kinds: cn in M)
        if w.res.undecided: return w.res
        seen = w.eng.notes
        if not w.loops or not seen: w.unknown('no repetition found'); return w.res
        for _, uid, st, M, kinds, backs, exits in w.loops:
            lv = ('lv', uid, cn)
            for s in backs:
                if s.mem[cn] != add(lv, I(-1)) or not linear.entails(linear.of_pc(s.pc), linear.shift(linear.lin(lv), -1)):
                    w.bad('when %s: the number of slices still to write becomes %s' % (pp.ppc(s.pc)[:300], pp.pt(s.mem[cn])[:300])); return w.res
            for pc, args in seen:
                if args[0] != path_of(dr, text(pre, 's', app('show', lv), '.htf')) and not any(args[0] == path_of(dr, text(pre, 's', app('show', ('lv', l[1], cn)), '.htf')) for l in w.loops):
                    w.bad('writes the file %s' % pp.pt(args[0])[:300]); return w.res
        for pc, args in seen:
            if args[1:3] != [g, co]: w.bad('writes with other declarations'); return w.res
            v = args[3]
            if v[0] != 'coll' or len(v[2]) != 1 or v[2][0][0] != 'for' or v[2][0][2] != mt:
                (w.unknown if opaque_in(v) or mentions_any(v, lambda x: x[0] in ('lv', 'fold')) else w.bad)('writes %s' % pp.pt(v)[:600]); return w.res
            x = fresh()
            r = part_of(w, pc, x, open_(v[2][0][1], v[2][0][3], x), linear.of_pc(pc), pc.known(('disc', kind, SK)), pc.known(('b', wide)))
            if r is None: w.unknown('parts of %s' % pp.pt(v)[:600]); return w.res
            if not r: w.bad('when %s: writes %s, of which a component is not a part as asked for' % (pp.ppc(pc)[:300], pp.pt(v)[:1200])); return w.res
        return w.res
    return Obl('random slices', go)
