"""Forward dataflow / abstract interpretation over MIR with trace partitioning.

State = (memory: cell -> term, partition: atom -> allowed values).  Branches on undetermined finite atoms split the
partition; equal states are merged at join points; every loop is summarised once by its header invariant into a
comprehension (never unrolled, except over a literal list); calls to contracted functions are left uninterpreted,
other local functions are analysed in the caller's context.
"""
import json, re, sys
import terms as T
from terms import *

sys.setrecursionlimit(20000)

class GiveUp(Exception):
    """analysis budget exceeded / construct outside the domain"""

class PC:
    __slots__ = ('d', 'ge', '_h')
    def __init__(self, d=None, ge=None):
        self.d = d or {}
        self.ge = ge or {}
        self._h = None
    def known(self, a):
        """set of values still possible for atom"""
        if a[0] == 'ge':
            lo, hi = self.ge.get(a[1], (None, None))
            if lo is not None and a[2] <= lo: return (True,)
            if hi is not None and a[2] > hi: return (False,)
            return (True, False)
        r = self.d.get(a)
        if r is not None: return r
        if a[0] == 'cmp':
            e = self.d.get(('b', T.app('eq', *sorted((a[1], a[2]), key=rk))))
            if e is not None:
                return ('Equal',) if True in e else ('Greater', 'Less')
        if a[0] == 'b' and a[1][0] == 'app' and a[1][1] == 'eq':
            x, y = a[1][2]
            e = self.d.get(('cmp', x, y)) or self.d.get(('cmp', y, x))
            if e is not None:
                if 'Equal' not in e: return (False,)
                if len(e) == 1: return (True,)
        return tuple(sorted(domain(a), key=vkey))
    def assume(self, a, vals):
        """vals: iterable of allowed values; None when infeasible"""
        k = self.known(a)
        n = tuple(v for v in k if v in vals)
        if not n: return None
        if len(n) == len(k): return self
        if a[0] == 'ge':
            lo, hi = self.ge.get(a[1], (None, None))
            if n == (True,): lo = a[2] if lo is None else max(lo, a[2])
            else: hi = a[2] - 1 if hi is None else min(hi, a[2] - 1)
            if lo is not None and hi is not None and lo > hi: return None
            g = dict(self.ge); g[a[1]] = (lo, hi)
            return PC(self.d, g)
        d = dict(self.d); d[a] = n
        return PC(d, self.ge)
    def key(self):
        if self._h is None:
            self._h = (frozenset(self.d.items()), frozenset(self.ge.items()))
        return self._h
    def items(self):
        out = [(a, v) for a, v in self.d.items()]
        for L, (lo, hi) in self.ge.items():
            if lo is not None: out.append((('ge', L, lo), (True,)))
            if hi is not None: out.append((('ge', L, hi + 1), (False,)))
        return out
    def resolve(self, t):
        """restrict a decision tree by what is known"""
        if t[0] == 'ite':
            k = self.known(t[1])
            if len(k) == 1: return self.resolve(dict(t[2])[k[0]])
        elif t[0] not in ('bool', 'vn', 'undef') :
            k = self.known(('b', t))
            if len(k) == 1: return B(k[0])
        return t

def pc_join(p, q):
    """exact union of two partitions that differ in one atom; None otherwise"""
    if p.key() == q.key(): return p
    if p.ge == q.ge:
        da = [a for a in set(p.d) | set(q.d) if p.d.get(a) != q.d.get(a)]
        if len(da) == 1:
            a = da[0]
            if a not in p.d or a not in q.d: 
                return PC({k: v for k, v in p.d.items() if k != a}, p.ge)
            u = tuple(sorted(set(p.d[a]) | set(q.d[a]), key=vkey))
            d = dict(p.d)
            if len(u) == len(domain(a)): del d[a]
            else: d[a] = u
            return PC(d, p.ge)
    elif p.d == q.d:
        da = [L for L in set(p.ge) | set(q.ge) if p.ge.get(L) != q.ge.get(L)]
        if len(da) == 1:
            L = da[0]
            a, b = p.ge.get(L, (None, None)), q.ge.get(L, (None, None))
            if b[0] is None or (a[0] is not None and b[0] < a[0]): a, b = b, a
            # a starts first
            if a[1] is None: n = a
            elif b[0] is None: n = (None, None if b[1] is None else max(a[1], b[1]))
            elif b[0] <= a[1] + 1: n = (a[0], None if b[1] is None else max(a[1], b[1]))
            else: return None
            g = dict(p.ge)
            if n == (None, None): g.pop(L, None)
            else: g[L] = n
            return PC(p.d, g)
    return None

class State:
    __slots__ = ('mem', 'pc')
    def __init__(self, mem, pc):
        self.mem, self.pc = mem, pc
    def copy(self): return State(dict(self.mem), self.pc)
    def with_pc(self, pc): return State(dict(self.mem), pc)

class Frame:
    def __init__(self, fid, body, args_terms):
        self.fid, self.body, self.args = fid, body, args_terms

class Stats:
    def __init__(self):
        self.functions = {}
        self.blocks = 0
        self.splits = 0
        self.loops = 0
        self.opaque_calls = {}
        self.unmodelled = {}

# ------------------------------------------------------------------ cfg helpers
class Cfg:
    def __init__(self, body):
        self.n = len(body['blocks'])
        self.succ = []
        for bb in body['blocks']:
            if bb is None: self.succ.append([]); continue
            t = bb[1]
            if t[0] == 'goto': s = [t[1]]
            elif t[0] == 'switch': s = [x[1] for x in t[4]] + [t[5]]
            elif t[0] == 'call': s = [t[5]] if t[5] is not None else []
            elif t[0] == 'assert': s = [t[4]]
            else: s = []
            self.succ.append(s)
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]; seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); stack.pop()
        self.rpo = {b: i for i, b in enumerate(reversed(order))}
        rp = list(reversed(order))
        preds = {b: [] for b in rp}
        for b in rp:
            for s in self.succ[b]:
                if s in preds: preds[s].append(b)
        self.preds = preds
        idom = {0: 0}
        ch = True
        def inter(a, b):
            while a != b:
                while self.rpo[a] > self.rpo[b]: a = idom[a]
                while self.rpo[b] > self.rpo[a]: b = idom[b]
            return a
        while ch:
            ch = False
            for b in rp[1:]:
                ps = [p for p in preds[b] if p in idom]
                n = ps[0]
                for p in ps[1:]: n = inter(n, p)
                if idom.get(b) != n: idom[b] = n; ch = True
        self.idom = idom
        self.loops = {}
        for b in rp:
            for s in self.succ[b]:
                if s in self.rpo and self.dominates(s, b):
                    L = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in L: continue
                        L.add(x); st += preds[x]
        self._live(body)
    def dominates(self, a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = self.idom[b]
    def _live(self, body):
        use, de = {}, {}
        borrowed = set()
        def op(o, u):
            if o[0] in 'cm': pl(o[1], u)
        def pl(p, u):
            u.add(p[0])
            for e in p[1]:
                if e[0] == 'i': u.add(e[1])
        for b in self.rpo:
            bb = body['blocks'][b]
            u, d = set(), set()
            def U(f):
                s = set(); f(s); u.update(s - d)
            for st in bb[0]:
                if st[0] == 'setdisc': continue
                r = st[2]
                if r[0] in ('use', 'repeat'): U(lambda s: op(r[1], s))
                elif r[0] == 'ref':
                    U(lambda s: pl(r[2], s))
                    if r[1] and not any(e[0] == '*' for e in r[2][1]): borrowed.add(r[2][0])
                elif r[0] == 'cast': U(lambda s: op(r[2], s))
                elif r[0] == 'bin': U(lambda s: (op(r[2], s), op(r[3], s)))
                elif r[0] == 'un': U(lambda s: op(r[2], s))
                elif r[0] == 'disc': U(lambda s: pl(r[1], s))
                elif r[0] == 'agg': U(lambda s: [op(o, s) for o in r[2]])
                p = st[1]
                if p[1]: U(lambda s: pl(p, s))
                else: d.add(p[0])
            t = bb[1]
            if t[0] == 'switch': U(lambda s: op(t[2], s))
            elif t[0] == 'assert': U(lambda s: op(t[2], s))
            elif t[0] == 'call':
                U(lambda s: (op(t[2], s), [op(o, s) for o in t[3]]))
                if t[4][1]: U(lambda s: pl(t[4], s))
                else: d.add(t[4][0])
            elif t[0] == 'ret': U(lambda s: s.add(0))
            use[b], de[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in sorted(self.rpo, key=lambda x: -self.rpo[x]):
                o = set()
                for s in self.succ[b]: o |= live[s]
                n = use[b] | (o - de[b])
                if n != live[b]: live[b] = n; ch = True
        self.live = live
        self.borrowed = borrowed

class Engine:
    MAXSTATES = 600
    MAXSTEPS = 60000
    def __init__(self, prog, opaque=(), transparent_consts=True):
        self.P = prog
        for p, a in prog.adts.items():
            if a['kind'] != 'union':
                T.DOMS[p] = tuple(v['name'] for v in a['variants'])
                for v in a['variants']: T.NFIELDS[(p, v['name'])] = len(v['fields'])
        for k, b in prog.bodies.items():
            if b['locals'] and b['locals'][0].startswith('std::vec::Vec<'): T.SEQAPPS.add(k)
        self.discr = {p: {v['discr']: v['name'] for v in a['variants']} for p, a in prog.adts.items()}
        self.discr_of = {p: {v['name']: v['discr'] for v in a['variants']} for p, a in prog.adts.items()}
        self.opaque = set(opaque)
        self.cfgs = {}
        self.stack = []
        self.stats = Stats()
        self.fid = 0
        self.steps = 0
        self.loop_hook = None
        self.alias = {}
        self.tops = 0
        self.notes = []
        self.hook = {}

    # -------------------------------------------------------------- public
    def analyse(self, key, args, mem=None, pc=None):
        """returns list of (kind 'ret'|'panic', value, state)"""
        self.steps = 0
        st = State(dict(mem or {}), pc or PC())
        return self.call_body(key, list(args), st)

    def new_cell(self, st, v):
        self.fid += 1
        c = ('h', self.fid)
        st.mem[c] = v
        return c

    def cfg(self, key):
        c = self.cfgs.get(key)
        if c is None: c = self.cfgs[key] = Cfg(self.body(key))
        return c

    def body(self, key):
        b = self.P.bodies.get(key)
        if b is None:
            import models
            b = models.SYNTH[key]
        return b

    def call_body(self, key, args, st):
        body = self.body(key)
        if key in self.P.bodies: self.stats.functions[key] = self.stats.functions.get(key, 0) + 1
        if len(self.stack) > 40: raise GiveUp('inlining depth')
        self.fid += 1
        fr = Frame(self.fid, body, tuple(args))
        st = st.copy()
        for i, a in enumerate(args): st.mem[(fr.fid, i + 1)] = a
        self.stack.append((key, fr))
        try:
            outs = self.run(fr, key, 0, st, None)
        finally:
            self.stack.pop()
        res = []
        for kind, b, s in outs:
            v = s.mem.get((fr.fid, 0), UNIT)
            s2 = State({c: x for c, x in s.mem.items() if c[0] != fr.fid}, s.pc)
            res.append((kind, v if kind == 'ret' else b, s2))
        return self.merge_results(res)

    def merge_results(self, res):
        out = []
        for r in res:
            for i, o in enumerate(out):
                if o[0] == r[0] and o[1] == r[1] and o[2].mem == r[2].mem:
                    j = pc_join(o[2].pc, r[2].pc)
                    if j is not None:
                        out[i] = (o[0], o[1], State(o[2].mem, j)); break
            else: out.append(r)
        return out

    # -------------------------------------------------------------- region execution
    def run(self, fr, key, start, st, loop):
        """loop: (header, blockset) when analysing a loop body. Returns [(kind, block|info, state)]"""
        cfg = self.cfg(key)
        work = {start: [st]}
        out = []
        first = True
        iters = {}
        while work:
            b = min(work, key=lambda x: cfg.rpo.get(x, 1 << 30))
            sts = work.pop(b)
            if loop is not None and not first:
                if b == loop[0]:
                    out += [('back', b, s) for s in sts]; continue
                if b not in loop[1]:
                    out += [('exit', b, s) for s in sts]; continue
            sts = self.merge_states(cfg, fr, b, sts)
            if len(sts) > self.MAXSTATES: raise GiveUp('partitions')
            for s in sts:
                isloop = b in cfg.loops and not (loop is not None and first and b == loop[0])
                if isloop and not self.concrete_driver(fr, cfg, b, s):
                    res = self.summarise(fr, key, cfg, b, s)
                elif isloop:
                    iters[b] = iters.get(b, 0) + 1
                    if iters[b] > 400: raise GiveUp('literal loop')
                    res = self.exec_block(fr, key, b, s)
                else:
                    res = self.exec_block(fr, key, b, s)
                for kind, tgt, s2 in res:
                    if kind == 'go': work.setdefault(tgt, []).append(s2)
                    else: out.append((kind, tgt, s2))
            first = False
        return out

    def merge_states(self, cfg, fr, b, sts):
        if True:
            live = cfg.live.get(b, set())
            for s in sts:
                roots = [v for c, v in s.mem.items() if c[0] != fr.fid or c[1] in live]
                keep = set()
                todo = list(roots)
                seen = set()
                while todo:
                    for r in refs_in(todo.pop()):
                        if r not in seen:
                            seen.add(r)
                            if r in s.mem: todo.append(s.mem[r])
                s.mem = {c: v for c, v in s.mem.items() if c[0] != fr.fid or c[1] in live or c in seen}
        if len(sts) < 2: return sts
        out = []
        for s in sts:
            cur = s
            again = True
            while again:
                again = False
                for i, o in enumerate(out):
                    if o.mem == cur.mem:
                        j = pc_join(o.pc, cur.pc)
                        if j is not None:
                            cur = State(cur.mem, j); del out[i]; again = True; break
            out.append(cur)
        return out

    def concrete_driver(self, fr, cfg, h, st):
        """header that pulls from an iterator whose next element is literal (or literally exhausted)"""
        body = fr.body
        b = h
        st = st.copy()
        for _ in range(6):
            bb = body['blocks'][b]
            t = bb[1]
            if t[0] not in ('goto', 'call'): return False
            try:
                for s in bb[0]:
                    if s[0] == 'setdisc': return False
                    self.write_place(fr, st, s[1], self.rvalue(fr, st, s[2]))
                if t[0] == 'goto': b = t[1]; continue
                if t[2][0] != 'k' or t[2][1].get('fn') != 'std::iter::Iterator::next': return False
                v = self.deref(st, self.operand(fr, st, t[3][0]))
            except GiveUp: return False
            if v[0] == 'app' and v[1] == 'range' and v[2][0][0] == 'int' and v[2][1][0] == 'int' and v[2][1][1] - v[2][0][1] <= 16: return True
            return v[0] == 'coll' and (not v[2] or v[2][0][0] == 'one')
        return False

    # -------------------------------------------------------------- loops
    def summarise(self, fr, key, cfg, h, st):
        self.stats.loops += 1
        blocks = cfg.loops[h]
        self.fid += 1
        uid = self.fid
        M = set()
        kinds = {}
        for rnd in range(12):
            # what was noted of the body under assumptions that turned out too strong is forgotten
            if rnd == 0: mark = len(self.notes)
            del self.notes[mark:]
            s0 = st.copy()
            for c in M:
                v0 = st.mem[c]
                if kinds.get(c) == 'it': s0.mem[c] = ('lvit', uid, c, v0)
                else: s0.mem[c] = ('lv', uid, c)
            s0.pc = PC(dict(st.pc.d), dict(st.pc.ge))
            res = self.run(fr, key, h, s0, (h, blocks))
            new = set()
            for kind, b, s in res:
                if kind != 'back': continue
                for c, v in s0.mem.items():
                    if c in M: continue
                    if c in s.mem and s.mem[c] != v: new.add(c)
            for c in new:
                v0 = st.mem[c]
                if self.is_iter_cell(fr, cfg, key, c, blocks, st): kinds[c] = 'it'
            if not new: break
            M |= new
        else:
            raise GiveUp('loop invariant')
        out = [(k, b, s) for k, b, s in res if k in ('panic',)]
        out = [(k, 'in a loop', s) for k, b, s in out]
        for k, b, s in out: s.pc = st.pc
        backs = [s for k, b, s in res if k == 'back']
        exits = [(k, b, s) for k, b, s in res if k in ('exit', 'ret')]
        if not backs:
            # the body never comes back: no iteration to summarise
            return out + [('go' if k == 'exit' else k, b, s) for k, b, s in exits]
        if self.watch and self.watch(key, h, uid, st, M, kinds, backs, exits):
            return out + self.opaque_loop(st, uid, M, exits)
        return out + self.close_loop(fr, cfg, st, s0, uid, M, kinds, backs, exits)

    def is_iter_cell(self, fr, cfg, key, c, blocks, st):
        """cell is advanced by Iterator::next inside the loop and nothing else"""
        for b in blocks:
            bb = fr.body['blocks'][b]
            t = bb[1]
            if t[0] == 'call' and t[2][0] == 'k' and t[2][1].get('fn') == 'std::iter::Iterator::next':
                # find what local the argument refers to
                a = t[3][0]
                if a[0] not in 'cm': continue
                tgt = self.trace_ref(fr, blocks, a[1][0])
                if (fr.fid, tgt) == c: return True
                # through a reference that was given to the function
                if isinstance(tgt, tuple) and st.mem.get((fr.fid, tgt[1])) == ('ref', c, ()): return True
        return False

    def trace_ref(self, fr, blocks, l, depth=0):
        """the local that a reference made in these blocks leads to; ('*', l): what the reference l leads to"""
        if depth > 5: return None
        for b in blocks:
            for s in fr.body['blocks'][b][0]:
                if s[0] == 'setdisc': continue
                if s[1] == [l, []]:
                    r = s[2]
                    if r[0] == 'ref':
                        if not r[2][1]: return r[2][0]
                        if r[2][1] == [['*']]: return self.trace_ref(fr, blocks, r[2][0], depth + 1) or ('*', r[2][0])
                    if r[0] == 'use' and r[1][0] in 'cm' and not r[1][1][1]: return self.trace_ref(fr, blocks, r[1][1][0], depth + 1)
        return None

    def delta(self, base, pc):
        """constraints of pc not in base"""
        out = []
        for a, v in pc.items():
            if a[0] == 'ge':
                if len(base.known(a)) == 1: continue
                out.append((a, v))
            else:
                if base.d.get(a) == v: continue
                out.append((a, v))
        return out

    def close_loop(self, fr, cfg, st, s0, uid, M, kinds, backs, exits):
        base = st.pc
        # identify the driver
        has = None
        for s in backs:
            for a, v in s.pc.items():
                if a[0] == 'b' and a[1][0] == 'hasnext' and a[1][1] == uid: has = a
        binder = None
        src = None
        deltas = [(s, self.delta(base, s.pc)) for s in backs]
        edeltas = [(k, b, s, self.delta(base, s.pc)) for k, b, s in exits]
        rangecell = None
        if has is None:
            # counting loop?
            r = self.count_loop(st, uid, M, deltas, edeltas)
            if r is None:
                return self.opaque_loop(st, uid, M, exits)
            rangecell, lo, hi, exitatom = r
            src = T.app('range', lo, hi) if lo != I(0) or True else None
            binder = fresh('b', 'usize')
            lvi = ('lv', uid, rangecell)
            nd, ne = [], []
            for s, d in deltas:
                nd.append((self.subst_state(s, {lvi: binder}), [(x, v) for x, v in d if x != exitatom[0]]))
            nd = [(s, self.subst_delta(d, {lvi: binder})) for s, d in nd]
            for k, b, s, d in edeltas:
                if any(x == exitatom[0] and v == exitatom[1] for x, v in d):
                    ne.append((k, b, s, [(x, v) for x, v in d if x != exitatom[0]], False))
                else:
                    s2 = self.subst_state(s, {lvi: binder})
                    ne.append((k, b, s2, self.subst_delta([(x, v) for x, v in d if x != exitatom[0]], {lvi: binder}), True))
            deltas, edeltas = nd, ne
            gsrc = [(binder, src, None)]
        else:
            itcell = has[1][2]
            if not all(any(a == has and v == (True,) for a, v in d) for _, d in deltas):
                return self.opaque_loop(st, uid, M, exits)
            v0 = st.mem[itcell]
            binder = ('sym', 'it%d' % uid, '')
            src = self.iter_source(v0)
            ne = []
            for k, b, s, d in edeltas:
                hv = [v for a, v in d if a == has]
                if not hv: return self.opaque_loop(st, uid, M, exits)
                ne.append((k, b, s, [(a, v) for a, v in d if a != has], hv[0] == (True,)))
            edeltas = ne
            deltas = [(s, [(a, v) for a, v in d if a != has]) for s, d in deltas]
        # iterator advanced exactly once per iteration
        for s, d in deltas:
            for c in M:
                if kinds.get(c) == 'it' and s.mem.get(c) != ('lvnext', uid, c):
                    return self.opaque_loop(st, uid, M, exits)
        early = [(k, b, s, d) for k, b, s, d, e in edeltas if e]
        normal = [(k, b, s, d) for k, b, s, d, e in edeltas if not e]
        lvs = {('lv', uid, c): c for c in M if kinds.get(c) != 'it' and c != rangecell}
        # iterate over the underlying collection
        for _ in range(6):
            n = T.nsrc(binder, src) or T.one_to_one(binder, src)
            if not n: break
            nb, src, m = n
            deltas = [(self.subst_state(s, m), self.subst_delta(d, m)) for s, d in deltas]
            early = [(k, b, self.subst_state(s, m), self.subst_delta(d, m)) for k, b, s, d in early]
            binder = nb
        # cells of which each iteration only touches the element at its own position
        own = {}
        for l, c in lvs.items():
            own.update(self.own_reads(l, st.mem[c], binder, src, [s.mem.get(c) for s, _ in deltas]))
        if own:
            deltas = [(self.subst_state(s, own), self.subst_delta(d, own)) for s, d in deltas]
            early = [(k, b, self.subst_state(s, own), self.subst_delta(d, own)) for k, b, s, d in early]
        # guards of early exits must not depend on loop-carried cells, otherwise be opaque
        def dep(d): return any(mentions_any(a, lambda t: t in lvs) for a, _ in d)
        if any(dep(d) for *_, d in early):
            r = self.latch_loop(fr, st, uid, M, kinds, binder, src, lvs, deltas, early, normal)
            if r is None: r = self.threshold_loop(fr, st, uid, M, kinds, binder, src, lvs, deltas, early, normal)
            if r is None: return self.opaque_loop(st, uid, M, exits)
            return r
        gexit = FALSE
        for *_, d in early: gexit = bor(gexit, delta_dt(d))
        # values at normal exit
        final = self.final_values(st, uid, binder, src, lvs, deltas)
        if rangecell is not None:
            final[('lv', uid, rangecell)] = ite(lt(lo, hi), hi, lo) if not (lo == I(0) and T.nonneg(hi)) else hi
        res = []
        if gexit != FALSE:
            X = mk_exists(binder, src, gexit)
        else: X = FALSE
        for k, b, s, d in normal:
            s2 = self.subst_state(s, final)
            d2 = self.subst_delta(d, final)
            for pc in self.pcs_from(base, d2):
                for pc2 in self.force(pc, X, False):
                    mem = dict(s2.mem)
                    for c in M:
                        if kinds.get(c) == 'it': mem[c] = empty('seq')
                    res.append(('go' if k == 'exit' else k, b, State(mem, pc2)))
        if early:
            e = mk_first(binder, src, gexit)
            cond1 = len(early) == 1
            # what the iterations before that element did
            before = T.as_dt(lt(('idx', binder), ('idx', e)))
            if before[0] != 'ite': pre = None
            else: pre = [(s, d + [(before, (True,))]) for s, d in deltas] + [(State(dict(st.mem, **{}), st.pc), [(before, (False,))])]
            fin = {}
            for l, c in lvs.items():
                if final.get(l) == st.mem.get(c): fin[l] = st.mem[c]
                elif pre is None or final[l][0] == 'top': fin[l] = ('top', 'early', uid, c)
                else:
                    pre[-1][0].mem[c] = l
                    fin[l] = self.final_value(l, c, st.mem[c], binder, src, lvs, pre, uid)
            for k, b, s, d in early:
                m = {binder: e}
                for l, c in lvs.items():
                    m[l] = fin[l]
                if isinstance(kinds, dict):
                    pass
                s2 = self.subst_state(s, m)
                for c in M:
                    if kinds.get(c) == 'it' and c in s2.mem: s2.mem[c] = ('top', 'iter', uid)
                for pc in self.force(base, X, True):
                    if cond1: pcs = [pc]
                    else: pcs = self.pcs_from(pc, self.subst_delta(d, m))
                    for p in pcs: res.append(('go' if k == 'exit' else k, b, State(dict(s2.mem), p)))
        return res

    def leave(self, st, kinds, M, exit_, m, pcs):
        """states that leave a loop by an exit, with values m for the loop-carried cells"""
        k, b, s = exit_
        res = []
        s2 = self.subst_state(s, m)
        for pc in pcs:
            mem = dict(s2.mem)
            for c in M:
                if kinds.get(c) == 'it': mem[c] = ('top', 'iter', c)
            res.append(('go' if k == 'exit' else k, b, State(mem, pc)))
        return res

    def latch_loop(self, fr, st, uid, M, kinds, binder, src, lvs, deltas, early, normal):
        """for x in src { if !ok { break } ..; ok = ok && test(x) }: ok is lowered at the first failing element and nothing
        else happens afterwards"""
        for L, c in lvs.items():
            up, down = (('b', L), (True,)), (('b', L), (False,))
            if not all(d == [down] or up in d for *_, d in early): continue
            if not all(up in d for _, d in deltas): continue
            # exits of another kind, taken before the latch is lowered
            other = [(k, b, s, [x for x in d if x != up]) for k, b, s, d in early if up in d]
            if any(mentions_any(a, lambda t: t in lvs) for *_, d in other for a, _ in d): continue
            gone = FALSE
            for *_, d in other: gone = bor(gone, delta_dt(d))
            X = mk_exists(binder, src, gone)
            early_ = [x for x in early if x[3] == [down]]
            if any(mentions_any(a, lambda t: t in lvs) for *_, d in normal for a, _ in d): continue
            ds, fail = [], FALSE
            for s, d in deltas:
                d2 = [x for x in d if x != up]
                v = subst(s.mem[c], {L: TRUE})
                if v[0] not in ('bool', 'ite', 'app', 'exists', 'fld'): return None
                ds.append((s, d2))
                fail = bor(fail, band(delta_dt(d2), bnot(v)))
            if mentions_any(fail, lambda t: t in lvs): return None
            ok = band(st.mem[c], bnot(mk_exists(binder, src, fail)))
            ds = [(self.subst_state(s, {L: TRUE}), d) for s, d in ds]
            final = self.final_values(st, uid, binder, src, {l: k for l, k in lvs.items() if l != L}, ds)
            res = []
            m = dict(final); m[L] = TRUE
            for k, b, s, d in normal:
                pcs = [q for pc in self.pcs_from(st.pc, self.subst_delta(d, m)) for p_ in self.force(pc, ok, True) for q in self.force(p_, X, False)]
                res += self.leave(st, kinds, M, (k, b, s), m, pcs)
            m = {l: ('top', 'stopped', uid, k) for l, k in lvs.items()}
            m[L] = FALSE
            for i, (k, b, s, d) in enumerate(normal + early_):
                ch = (('b', ('top', 'stop', uid)), (i < len(normal),))
                pcs = [q for pc in self.force(st.pc, ok, False) for q in [pc.assume(ch[0], ch[1])] if q is not None]
                res += self.leave(st, kinds, M, (k, b, s), m, pcs)
            if other:
                m = {l: ('top', 'stopped', uid, k) for l, k in lvs.items()}
                m[L] = TRUE
                m[binder] = ('top', 'element', uid)
                for i, (k, b, s, d) in enumerate(other):
                    pcs = self.force(st.pc, X, True)
                    if len(other) > 1: pcs = [q for pc in pcs for q in [pc.assume(('b', ('top', 'which', uid, i)), (True,))] if q is not None]
                    res += self.leave(st, kinds, M, (k, b, s), m, pcs)
            return res
        return None

    def threshold_loop(self, fr, st, uid, M, kinds, binder, src, lvs, deltas, early, normal):
        """for x in src { if test(x) { n += 1; if n >= k { exit } } }: the exit is taken when k elements satisfy the test"""
        if len(early) != 1: return None
        k, b, s, d = early[0]
        for L, c in lvs.items():
            at = [(a, v) for a, v in d if a[0] == 'ge' and any(t == L for t, _ in a[1])]
            if len(at) != 1 or len(at[0][0][1]) != 1: continue
            a, v = at[0]
            co = dict(a[1])[L]
            # the exit is taken when the counter before this element is at least lim
            if co == 1 and v == (True,): lim = a[2]
            elif co == -1 and v == (False,): lim = 1 - a[2]
            else: continue
            v0 = st.mem[c]
            if v0[0] != 'int' or v0[1] > lim: continue
            test = [x for x in d if x != (a, v)]
            if any(mentions_any(y, lambda t: t in lvs) for y, _ in test): continue
            good, hit = True, False
            for s2, d2 in deltas:
                w = s2.mem.get(c)
                if w == add(L, I(1)):
                    hit = True
                    r = [x for x in d2 if x != (a, (not v[0],))]
                    if len(r) == len(d2) or sorted(r, key=repr) != sorted(test, key=repr): good = False
                elif w == L:
                    if any(mentions(y, L) for y, _ in d2): good = False
                else: good = False
            if not good or not hit: continue
            if any(mentions_any(y, lambda t: t in lvs) for *_, dd in normal for y, _ in dd): continue
            n = mk_sum(binder, src, push1(lambda l: UNDEF if l == UNDEF else I(1 if l[1] else 0), delta_dt(test)))
            over = lt(I(lim - v0[1]), n)
            ds = [(s2, [x for x in d2 if x[0] != a]) for s2, d2 in deltas]
            final = self.final_values(st, uid, binder, src, lvs, ds)
            res = []
            for kk, bb, s2, dd in normal:
                pcs = [q for pc in self.pcs_from(st.pc, self.subst_delta(dd, final)) for q in self.force(pc, over, False)]
                res += self.leave(st, kinds, M, (kk, bb, s2), final, pcs)
            m = {l: ('top', 'stopped', uid, x) for l, x in lvs.items()}
            m[L] = I(lim)
            m[binder] = ('top', 'element', uid)
            res += self.leave(st, kinds, M, (k, b, s), m, self.force(st.pc, over, True))
            return res
        return None

    def own_reads(self, lv, v0, binder, src, vals):
        """what the iteration reads at its own position, in terms of the value before the loop"""
        pos = T.here(binder, src)
        paths = set()
        def diff(base, v, path):
            if v == base: return True
            if v is None: return False
            if v[0] == 'ite': return all(l == UNDEF or diff(base, l, path) for l in T.dt_leaves(v))
            if v[0] == 'app' and v[1] == 'setindex' and v[2][0] == base and v[2][1] in pos:
                paths.add((tuple(path), v[2][1])); return True
            if v[0] == 'adt' and v[3] and len(DOMS.get(v[1], (0, 0))) == 1:
                return all(diff(fld(base, v[1], v[2], i), f, path + [(v[1], v[2], i, len(v[3]))]) for i, f in enumerate(v[3]))
            return False
        if not all(diff(lv, v, []) for v in vals) or not paths: return {}
        m = {}
        mod = {p for p, _ in paths}
        for p, i in paths:
            a, b = lv, v0
            for k, (ad, vn, f, n) in enumerate(p):
                for j in range(n):
                    if not any(q[:k + 1] == p[:k] + ((ad, vn, j, n),) for q in mod): m[fld(a, ad, vn, j)] = fld(b, ad, vn, j)
                a, b = fld(a, ad, vn, f), fld(b, ad, vn, f)
            m[T.app('index', a, i)] = T.index(b, i)
            m[T.length(a)] = T.length(b)
        def whole(a, p, ps):
            if () in ps: return a
            ad, vn, _, n = next(iter(ps))[0]
            fs = []
            for j in range(n):
                sub_ = {q[1:] for q in ps if q[0][2] == j}
                fs.append(whole(fld(a, ad, vn, j), None, sub_) if sub_ else m[fld(a, ad, vn, j)])
            return mk_adt(ad, vn, fs)
        w = whole(lv, None, mod)
        if w != lv: m[lv] = w
        return m

    def force(self, pc, t, val):
        """partitions of pc in which boolean term t has value val"""
        return [p for p, l in self.split(pc, as_dt(t)) if l[1] == val]

    def split(self, pc, t):
        """enumerate (pc, leaf) of a decision tree under pc"""
        if t == UNDEF: return []
        if t[0] == 'ite':
            out = []
            k = pc.known(t[1])
            kids = dict(t[2])
            groups = {}
            for v in k:
                groups.setdefault(kids.get(v, UNDEF), []).append(v)
            if len(groups) > 1: self.stats.splits += 1
            for c, vs in groups.items():
                p = pc.assume(t[1], vs)
                if p is not None: out += self.split(p, c)
            return out
        return [(pc, t)]

    def pcs_from(self, pc, d):
        """d: list of (test tree, allowed leaf values)"""
        pcs = [pc]
        for t, vals in d:
            nxt = []
            for p in pcs:
                if t[0] in ('b', 'ge', 'disc', 'cmp'):
                    q = p.assume(t, vals)
                    if q is not None: nxt.append(q)
                else:
                    for q, l in self.split(p, as_test(t)):
                        if l[1] in vals: nxt.append(q)
            pcs = nxt
        return pcs

    def subst_delta(self, d, m):
        out = []
        for a, v in d:
            keys = set(m)
            if mentions_any(a, lambda t: t in keys):
                out.append((T.reatom(a, lambda c: subst(c, m)) if a[0] in ('b', 'ge', 'disc', 'cmp') else subst(a, m), v))
            else: out.append((a, v))
        return out

    def subst_state(self, s, m):
        keys = set(m)
        mem = {}
        for c, v in s.mem.items():
            mem[c] = subst(v, m) if mentions_any(v, lambda t: t in keys) else v
        return State(mem, s.pc)

    def iter_source(self, v):
        """what an iterator written in the analysed program goes through: the elements of a list it holds, from either end"""
        if v[0] != 'adt' or not v[3]: return v
        ks = [k for k, b in self.P.bodies.items() if k.endswith('as std::iter::Iterator>::next') and b['locals'][1].split('<')[0] == '&mut ' + v[1]]
        if not ks: return v
        unknown = T.app('?iterator', v)
        if len(ks) != 1: return unknown
        cell, me = ('p', 'self'), ('sym', 'self', v[1])
        eng = Engine(self.P, self.opaque)
        try: outc = eng.analyse(ks[0], [('ref', cell, ())], {cell: me})
        except GiveUp: return unknown
        fs = [fld(me, v[1], v[2], i) for i in range(len(v[3]))]
        some = [(r, s) for k, r, s in outc if k == 'ret' and r[:3] == ('adt', T.OPTION, 'Some')]
        none_ = [(r, s) for k, r, s in outc if k == 'ret' and r[:3] == ('adt', T.OPTION, 'None')]
        if len(some) != 1 or len(none_) != 1: return unknown
        e, s = some[0][0][3][0], some[0][1]
        for i, f in enumerate(fs):
            for drop, at, src in (('init', T.app('last', f), T.app('rev', v[3][i])), ('rest', T.app('index', f, I(0)), v[3][i])):
                left = mk_adt(v[1], v[2], [T.app(drop, f) if j == i else g for j, g in enumerate(fs)])
                if s.mem.get(cell) != left or not mentions(e, at): continue
                x = fresh()
                e2 = subst(e, {at: x})
                if mentions(e2, f) or len(none_[0][1].pc.known(T.nonempty(f)[1])) != 1: return unknown
                e2 = subst(e2, dict(zip(fs, v[3])))
                return T.coll('seq', T.mk_for_over(x, src, 'seq', ('gens', (('one', e2),))))
        return unknown

    def count_loop(self, st, uid, M, deltas, edeltas):
        """while i < N { ..; i += 1 }"""
        for c in M:
            lv = ('lv', uid, c)
            if not all(s.mem.get(c) == add(lv, I(1)) for s, _ in deltas): continue
            ats = set()
            for s, d in deltas:
                for a, v in d:
                    if a[0] == 'ge' and any(t == lv for t, _ in a[1]): ats.add((a, v))
            for a, v in ats:
                L = dict(a[1])
                k = L.pop(lv)
                if any(mentions_any(t, lambda x: x[:2] == ('lv', uid)) for t in L): continue
                if not all((a, v) in d for s, d in deltas): continue
                nv = (not v[0],)
                if not any((a, nv) in d for *_, d in edeltas): continue
                # i*k + rest >= a2  is v
                rest = T.mk_lin(L, 0)
                if k == 1 and v == (False,):
                    # continue while i + rest < a2   <=> i < a2 - rest
                    hi = sub(I(a[2]), rest)
                elif k == -1 and v == (True,):
                    # -i + rest >= a2 <=> i <= rest - a2  <=> i < rest - a2 + 1
                    hi = add(rest, I(1 - a[2]))
                else: continue
                return c, st.mem[c], hi, (a, nv)
        return None

    def opaque_loop(self, st, uid, M, exits):
        self.tops += 1
        res = []
        m = {}
        for k, b, s in exits:
            def isl(t): return len(t) > 1 and t[0] in ('lv', 'lvit', 'lvnext', 'hasnext') and t[1] == uid
            mem = {}
            for c, v in s.mem.items():
                if mentions_any(v, isl) or mentions_any(v, lambda t: t == ('sym', 'it%d' % uid, '')):
                    mem[c] = subst_pred(v, lambda t: isl(t) or t == ('sym', 'it%d' % uid, ''), lambda t: ('top', 'loop', uid, t[2]))
                else: mem[c] = v
            d = {a: v for a, v in s.pc.d.items() if not mentions_any(a, isl)}
            g = {L: v for L, v in s.pc.ge.items() if not mentions_any(L, isl)}
            # an unknown choice between exits
            ch = ('b', ('top', 'exit', uid, b, len(res)))
            d[ch] = (True,)
            res.append(('go' if k == 'exit' else k, b, State(mem, PC(d, g))))
        return res

    def final_values(self, st, uid, binder, src, lvs, deltas):
        """closed form after complete traversal of src for each loop-carried cell"""
        final = {}
        # counters that every iteration moves by the same amount say how far the iteration is
        ind = {}
        for lv, c in lvs.items():
            ws = {s.mem.get(c) for s, _ in deltas}
            if len(ws) != 1 or st.mem[c][0] not in ('int', 'lin', 'app'): continue
            step = sub(ws.pop() or lv, lv)
            if step[0] == 'int' and step[1] != 0: ind[lv] = add(st.mem[c], mul(('idx', binder), step))
        if ind:
            uses = lambda t: t in ind
            if any(mentions_any(a, uses) for _, d in deltas for a, _ in d) or any(mentions_any(s.mem.get(c, UNDEF), uses) for l, c in lvs.items() if l not in ind for s, _ in deltas):
                d2 = [(self.subst_state(s, ind), self.subst_delta(d, ind)) for s, d in deltas]
                for lv, c in lvs.items():
                    if lv in ind: final[lv] = add(st.mem[c], mul(length(src), sub(deltas[0][0].mem[c], lv)))
                lvs = {l: c for l, c in lvs.items() if l not in ind}
                deltas = d2
        # a flag that every iteration leaves with the same value says whether the iteration is the first one
        for lv, c in list(lvs.items()):
            v0 = st.mem[c]
            if v0[0] != 'bool': continue
            here, k = ('b', lv), not v0[1]
            if not all(s.mem.get(c) == ('bool', k) or s.mem.get(c) == lv and (here, (k,)) in [(a, tuple(v)) for a, v in d] for s, d in deltas): continue
            later = ('ge', ((('idx', binder), 1),), 1)
            now = T.mk_ite(later, {True: ('bool', k), False: v0})
            m = {lv: now}
            d2 = []
            for s, d in deltas:
                e = []
                for a, v in d:
                    if a == here: e.append((later, tuple(sorted(x == k for x in v))))
                    else: e += self.subst_delta([(a, v)], m)
                d2.append((self.subst_state(s, m), e))
            if any(mentions(a, lv) for _, d in d2 for a, _ in d): continue
            final[lv] = ite(nonempty(src), ('bool', k), v0)
            lvs = {l: x for l, x in lvs.items() if l != lv}
            deltas = d2
        for lv, c in lvs.items():
            v0 = st.mem[c]
            final[lv] = self.final_value(lv, c, v0, binder, src, lvs, deltas, uid)
        return final

    def final_value(self, lv, c, v0, binder, src, lvs, deltas, uid):
        opaque = ('top', 'loop', uid, c)
        vals = [(s.mem.get(c, opaque), d) for s, d in deltas]
        if any(v == opaque for v, _ in vals): return opaque
        others = [l for l in lvs if l != lv]
        def foreign(t): return mentions_any(t, lambda x: x in others)
        def own(t): return mentions(t, lv)
        # cells always equal to something invariant
        gdep_other = any(foreign(a) for _, d in vals for a, _ in d)
        gdep_own = any(own(a) for _, d in vals for a, _ in d)
        vdep_other = any(foreign(v) for v, _ in vals)
        if (gdep_other or vdep_other):
            # drop partitions' irrelevant atoms: try to see whether the value tree needs them
            t = partitions_dt([(d, v) for v, d in vals])
            if mentions_any(t, lambda x: x in others): return opaque
            vals2 = split_tree(t)
            return self.final_value(lv, c, v0, binder, src, {lv: c}, [(State({c: v}, None), d) for v, d in vals2], uid)
        if all(v == lv for v, _ in vals): return v0
        # appends to a collection
        kind = None
        ap = []
        ok = True
        for v, d in vals:
            if v == lv: ap.append((d, ()))
            elif v[0] == 'coll' and ('spread', lv) in v[2]:
                kind = v[1]
                i = v[2].index(('spread', lv))
                if v[1] == 'seq' and i != 0: ok = False; break
                r = v[2][:i] + v[2][i + 1:]
                if any(own(g) for g in r): ok = False; break
                ap.append((d, r))
            else: ok = False; break
        if ok and kind:
            if gdep_own:
                if kind == 'set':
                    # inserting only when absent is inserting
                    ap2 = []
                    for d, r in ap:
                        nd = [(a, v) for a, v in d if not own(a)]
                        odd = [(a, v) for a, v in d if own(a)]
                        good = all(a[0] == 'b' and a[1][0] == 'app' and a[1][1] == 'contains' and a[1][2][0] == lv for a, v in odd)
                        if not good: ok = False; break
                        ap2.append((nd, r, odd))
                    if ok:
                        t = partitions_dt([(d, ('gens', r)) for d, r, odd in ap2 if not any(v == (True,) for _, v in odd)])
                        return set_norm(coll(kind, gens_of(v0, kind) + mk_for_over(binder, src, kind, t)))
                ok = False
            else:
                t = partitions_dt([(d, ('gens', r)) for d, r in ap])
                if kind == 'seq':
                    return merge_str(coll(kind, gens_of(v0, kind) + mk_for_over(binder, src, kind, t)))
                return set_norm(coll(kind, gens_of(v0, kind) + mk_for_over(binder, src, kind, t)))
        tree = partitions_dt([(d, v) for v, d in vals])
        # boolean flags
        if v0[0] == 'bool' or all(v[0] in ('bool', 'ite') or v == lv or is_boolish(v) for v, _ in vals) and any(v[0] == 'bool' for v, _ in vals):
            tb = push_leaf(lambda l: as_dt(l), tree) if tree[0] != 'ite' else bool_tree(tree)
            nT = subst(tb, {lv: TRUE}); nF = subst(tb, {lv: FALSE})
            if not mentions(nT, lv) and not mentions(nF, lv):
                if nT == TRUE: return bor(v0, mk_exists(binder, src, nF))
                if nF == FALSE: return band(v0, bnot(mk_exists(binder, src, bnot(nT))))
        # counters
        if not gdep_own:
            ds = []
            for v, d in vals:
                if v[0] in ('lin',) or v == lv:
                    df = sub(v, lv)
                    if own(df): ds = None; break
                    ds.append((d, df))
                else: ds = None; break
            if ds is not None:
                t = partitions_dt(ds)
                return add(v0, mk_sum(binder, src, t))
        body = subst(tree, {lv: ACC})
        if body[0] == 'undef': return opaque
        return mk_fold(binder, src, v0, body)

    # -------------------------------------------------------------- blocks
    def exec_block(self, fr, key, b, st):
        self.steps += 1
        self.stats.blocks += 1
        if self.steps > self.MAXSTEPS: raise GiveUp('steps')
        st = st.copy()
        fr.at = b
        bb = fr.body['blocks'][b]
        for s in bb[0]:
            if s[0] == 'setdisc': raise GiveUp('set discriminant')
            v = self.rvalue(fr, st, s[2])
            self.write_place(fr, st, s[1], v)
        t = bb[1]
        k = t[0]
        if k == 'goto': return [('go', t[1], st)]
        if k == 'ret': return [('ret', None, st)]
        if k == 'unreach': return []
        if k == 'assert': return [('go', t[4], st)]
        if k == 'switch': return self.switch(fr, st, t)
        if k == 'call': return self.call(fr, key, st, t)
        raise GiveUp('terminator ' + k)

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t[2])
        ty = t[3]
        out = []
        cases = {c[0]: c[1] for c in t[4]}
        oth = t[5]
        if ty == 'bool':
            for pc, l in self.split(st.pc, as_dt(v)):
                if l[0] != 'bool': raise GiveUp('bool leaf %r' % (l,))
                n = 1 if l[1] else 0
                out.append(('go', cases.get(n, oth), st.with_pc(pc)))
            return out
        if v[0] == 'dval':      # discriminant read
            tree = disc_atom(v[1], v[2])
            if tree is None: raise GiveUp('enum ' + v[2])
            dv = self.discr_of[v[2]]
            by = {}
            for pc, l in self.split(st.pc, tree_group(tree, lambda l: ('vt', cases.get(dv[l[1]] , oth)))):
                out.append(('go', l[1], st.with_pc(pc)))
            return out
        if v[0] == 'top':
            for tgt in set(list(cases.values()) + [oth]):
                pc = st.pc.assume(('b', ('top', 'sw', v, tgt)), (True,))
                out.append(('go', tgt, st.with_pc(pc)))
            return out
        if ty == 'char' or v[0] == 'char':
            pcs = [st.pc]
            for n, tgt in cases.items():
                nxt = []
                for pc in pcs:
                    for p, l in self.split(pc, as_dt(eq(v, ('char', chr(n))))):
                        if l[1]: out.append(('go', tgt, st.with_pc(p)))
                        else: nxt.append(p)
                pcs = nxt
            out += [('go', oth, st.with_pc(p)) for p in pcs]
            return out
        pcs = [st.pc]
        for n, tgt in cases.items():
            nxt = []
            for pc in pcs:
                for p, l in self.split(pc, as_dt(eq(v, I(n)))):
                    if l[1]: out.append(('go', tgt, st.with_pc(p)))
                    else: nxt.append(p)
            pcs = nxt
        out += [('go', oth, st.with_pc(p)) for p in pcs]
        return out

    # -------------------------------------------------------------- places
    def locate(self, fr, st, place):
        """(cell, path) for writable places or ('val', term)"""
        cell = (fr.fid, place[0])
        path = ()
        variant = None
        cur = None      # when we leave memory: a pure term
        for e in place[1]:
            if e[0] == '*':
                v = cur if cur is not None else self.read(st, cell, path)
                if v[0] == 'ref':
                    cell, path, cur = v[1], v[2], None
                # otherwise transparent
                variant = None
            elif e[0] == 'f':
                if cur is not None: cur = self.proj(cur, ('f', e[1], e[3], variant))
                else: path = path + (('f', e[1], e[3], variant),)
                variant = None
            elif e[0] == 'v': variant = e[2]
            elif e[0] == 'i':
                i = self.read(st, (fr.fid, e[1]), ())
                path = path + (('i', i),) if cur is None else path
            elif e[0] == 'ci':
                path = path + (('ci', e[1], e[2]),)
            elif e[0] == 'sub': path = path + (('sub', e[1], e[2], e[3]),)
            else: raise GiveUp('place')
        return cell, path

    def proj(self, v, e):
        if e[0] == 'f':
            if v[0] == 'ref': raise GiveUp('projection through ref')
            if e[2] == '': return tfld(v, e[1])
            adt, var = e[2], e[3]
            if var is None:
                dom = DOMS.get(adt)
                var = dom[0] if dom else adt.split('::')[-1]
            while v[0] == 'app' and v[1] == 'setfield':
                if v[2][1] == I(e[1]): return v[2][2]
                v = v[2][0]
            return fld(v, adt, var, e[1])
        if e[0] == 'i': return self.index(v, e[1])
        if e[0] == 'ci':
            if not e[2]: return self.index(v, I(e[1]))
            return T.app('indexend', v, I(e[1]))
        if e[0] == 'key': return mk_app('mapval', (v, e[1]))
        if e[0] == 'sub': return T.app('subslice', v, I(e[1]), I(e[2]), B(e[3]))
        if e[0] == 'last': return T.app('last', v)
        raise GiveUp('proj')

    def index(self, v, i):
        if v[0] == 'app' and v[1] == 'setindex' and v[2][1] == i: return v[2][2]
        if (i[0] == 'idx' and i[1][0] != 'first') or (i[0] == 'sym' and i[1].startswith('b#')):
            return T.app('index', v, i)
        return index(v, i)

    def read(self, st, cell, path):
        if cell not in st.mem: 
            return UNDEF if not path else UNDEF
        v = st.mem[cell]
        for i, e in enumerate(path):
            if v[0] == 'ref':
                return self.read(st, v[1], v[2] + tuple(path[i:]))
            v = self.proj(v, e)
        return v

    def read_place(self, fr, st, place):
        cell, path = self.locate(fr, st, place)
        return self.read(st, cell, path)

    def write_place(self, fr, st, place, v):
        cell, path = self.locate(fr, st, place)
        self.write(st, cell, path, v)

    def write(self, st, cell, path, v):
        if not path:
            st.mem[cell] = v; return
        base = st.mem.get(cell, UNDEF)
        # writes through an embedded reference
        cur = base
        for i, e in enumerate(path):
            if cur[0] == 'ref':
                return self.write(st, cur[1], cur[2] + tuple(path[i:]), v)
            if cur == UNDEF: break
            if cur == ('uninit',):
                st.mem[cell] = self.update(base, path[:i], v, st); return
            cur = self.proj(cur, e)
        st.mem[cell] = self.update(base, path, v, st)

    def update(self, base, path, v, st):
        if not path: return v
        e = path[0]
        if e[0] == 'f':
            if e[2] == '':
                if base[0] in ('tup', 'clo'):
                    fs = list(base[-1])
                else:
                    raise GiveUp('tuple update')
                fs[e[1]] = self.update(fs[e[1]], path[1:], v, st)
                return base[:-1] + (tuple(fs),)
            adt = e[2]
            var = e[3] or (DOMS[adt][0] if adt in DOMS else None)
            n = T.NFIELDS.get((adt, var))
            if n is None:   # a structure of another crate
                return T.app('setfield', base, I(e[1]), self.update(self.proj(base, e), path[1:], v, st))
            fs = [fld(base, adt, var, i) if base != UNDEF else UNDEF for i in range(n)]
            fs[e[1]] = self.update(fs[e[1]], path[1:], v, st)
            return mk_adt(adt, var, fs)
        if e[0] == 'i':
            inner = self.update(self.proj(base, e), path[1:], v, st)
            if base[0] == 'coll' and e[1][0] == 'int' and all(g[0] == 'one' for g in base[2]) and e[1][1] < len(base[2]):
                gs = list(base[2]); gs[e[1][1]] = ('one', inner)
                return ('coll', base[1], tuple(gs))
            if base[0] == 'app' and base[1] == 'setindex' and base[2][1] == e[1]: base = base[2][0]     # the last one counts
            return T.app('setindex', base, e[1], inner)
        if e[0] == 'key':
            inner = self.update(self.proj(base, e), path[1:], v, st)
            return T.mapset(base, e[1], inner)
        if e[0] == 'last':
            inner = self.update(self.proj(base, e), path[1:], v, st)
            return T.app('setlast', base, inner)
        raise GiveUp('update')

    # -------------------------------------------------------------- operands / rvalues
    def operand(self, fr, st, o):
        if o[0] in 'cm': return self.read_place(fr, st, o[1])
        if o[0] == 'k': return self.const(o[1], st)
        raise GiveUp('operand')

    def const(self, c, st=None):
        if 'fn' in c: return ('fn', c.get('res') or c['fn'], json.dumps(c))
        if 'bool' in c: return B(c['bool'])
        if 'int' in c: return I(c['int'])
        if 'char' in c: return ('char', c['char'])
        if 'str' in c: return ('str', c['str'])
        if 'float' in c: return ('float', c['float'])
        if 'bytes' in c: return ('bytes', tuple(c['bytes']))
        if 'static' in c: return self.static(c['static'])
        if 'uneval' in c:
            k = c['uneval']
            if k in self.P.bodies and k not in self.opaque:
                r = self.call_body(k, [], State({}, PC()))
                if len(r) == 1 and r[0][0] == 'ret': return r[0][1]
            return ('static', k)
        if 'zst' in c: return ('adt', c['zst'], c['zst'].split('::')[-1], ()) if c['zst'] in DOMS else ('tup', ())
        m = re.fullmatch(r"Ty\(&'\{erased\} str, (\".*\")\)", str(c.get('other')))
        if m:
            try: return ('str', json.loads(m.group(1)))
            except ValueError: pass
        return ('static', 'const:' + str(c.get('other')))

    def static(self, k):
        if k in self.P.bodies:
            try:
                r = self.call_body(k, [], State({}, PC()))
                if len(r) == 1 and r[0][0] == 'ret' and not mentions_any(r[0][1], lambda t: t[0] in ('top',) ):
                    return r[0][1]
            except GiveUp: pass
        return ('static', k)

    def rvalue(self, fr, st, r):
        k = r[0]
        if k == 'use': return self.operand(fr, st, r[1])
        if k == 'ref':
            if r[1]:
                cell, path = self.locate(fr, st, r[2])
                # a place that does not live in memory is a plain value
                v = None
                if r[2][1] and r[2][1][-1][0] == '*':
                    pass
                # if the located place itself holds a ref and we ended on deref of a value, stay transparent
                base = st.mem.get(cell)
                cur = base
                for i, e in enumerate(path):
                    if cur is not None and cur[0] == 'ref':
                        return ('ref', cur[1], cur[2] + tuple(path[i:]))
                    if cur is None or cur == UNDEF: break
                    cur = self.proj(cur, e)
                return ('ref', cell, path)
            v = self.read_place(fr, st, r[2])
            return v
        if k == 'cast':
            v = self.operand(fr, st, r[2])
            return self.cast(v, r[1], r[3])
        if k == 'bin':
            v = self.binop(r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]))
            # arithmetic overflow is outside the abstraction: the flag is taken to be unset
            return ('tup', (v, FALSE)) if r[1].endswith('WithOverflow') else v
        if k == 'un':
            v = self.operand(fr, st, r[2])
            if r[1] == 'Not': return bnot(v)
            if r[1] == 'Neg':
                if v[0] == 'float': return ('float', '-' + v[1])
                return sub(I(0), v)
            if r[1] == 'PtrMetadata': return length(self.deref(st, v))
            return T.app('?un' + r[1], v)
        if k == 'disc':
            v = self.deref(st, self.read_place(fr, st, r[1]))
            if v[0] == 'dval' or v[0] == 'vn': return v
            return ('dval', v, r[2])
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in r[2]]
            a = r[1]
            if a[0] == 'tuple': return ('tup', tuple(ops))
            if a[0] == 'array': return merge_str_none(('coll', 'seq', tuple(('one', o) for o in ops)))
            if a[0] == 'adt':
                if a[1] in ('std::ops::Range', 'core::ops::Range'): return T.app('range', *ops)
                return mk_adt(a[1], a[2], ops)
            if a[0] == 'closure': return ('clo', a[1], tuple(ops))
            raise GiveUp('aggregate')
        if k == 'repeat':
            return T.app('repeat', self.operand(fr, st, r[1]), ('str', str(r[2])))
        raise GiveUp('rvalue ' + k)

    def deref(self, st, v):
        while v[0] == 'ref': v = self.read(st, v[1], v[2])
        return v

    def cast(self, v, kind, ty):
        if 'IntToFloat' in kind: return T.app('float', v)
        if 'FloatToInt' in kind: return T.app('trunc', v)
        if v[0] == 'dval':
            return v
        if v[0] == 'bool' and ty in ('i32','u32', 'usize', 'u8', 'isize'): return I(1 if v[1] else 0)
        return v

    def binop(self, op, a, b):
        op = op.replace('WithOverflow', '').replace('Unchecked', '')
        if a[0] == 'dval' or b[0] == 'dval':
            if op in ('Eq', 'Ne'):
                r = self.disc_eq(a, b)
                return r if op == 'Eq' else bnot(r)
            if op in ('Lt','Le','Gt','Ge','Cmp'):
                a2, b2 = self.dnum(a), self.dnum(b)
                a, b = a2, b2
        fl = a[0] == 'float' or b[0] == 'float' or (a[0] == 'app' and a[1].startswith('f.')) or (b[0] == 'app' and b[1].startswith('f.')) or (a[0]=='app' and a[1]=='float')
        if op in ('Add', 'Sub', 'Mul') and not fl:
            r = {'Add': add, 'Sub': sub, 'Mul': mul}[op](a, b)
            return r
        if op in ('Eq', 'Ne'):
            r = eq(a, b)
            return r if op == 'Eq' else bnot(r)
        if op in ('Lt', 'Le', 'Gt', 'Ge') and not fl:
            if a[0] == 'bool' or b[0] == 'bool': return T.app('?' + op, a, b)
            if a[0] == 'char' or b[0] == 'char': return T.app('?' + op, a, b)
            return {'Lt': lambda: lt(a, b), 'Le': lambda: le(a, b), 'Gt': lambda: lt(b, a), 'Ge': lambda: le(b, a)}[op]()
        if op == 'Cmp': return cmp_to_adt(cmp_(a, b))
        if op == 'BitAnd' : return band(a, b)
        if op == 'BitOr': return bor(a, b)
        if op == 'BitXor': return bnot(eq(a, b))
        if op in ('Div', 'Rem') and a[0] == 'int' and b[0] == 'int' and b[1] > 0:
            return I(a[1] // b[1]) if op == 'Div' else I(a[1] % b[1])
        if fl: return T.app('f.' + op, a, b)
        return T.app(op.lower(), a, b)

    def dnum(self, v):
        if v[0] == 'dval': 
            t = disc_atom(v[1], v[2])
            return push_leaf(lambda l: I(self.discr_of[v[2]][l[1]]), t)
        return v

    def disc_eq(self, a, b):
        if a[0] == 'dval' and b[0] == 'dval':
            ta, tb = disc_atom(a[1], a[2]), disc_atom(b[1], b[2])
            return dt_apply(lambda x, y: UNDEF if UNDEF in (x, y) else B(x[1] == y[1]), ta, tb)
        if b[0] == 'dval': a, b = b, a
        t = disc_atom(a[1], a[2])
        if b[0] == 'int':
            dv = self.discr_of[a[2]]
            return push_leaf(lambda l: B(dv[l[1]] == b[1]), t)
        if b[0] == 'vn': return push_leaf(lambda l: B(l[1] == b[1]), t)
        return T.app('?disceq', a, b)

    # -------------------------------------------------------------- calls
    def call(self, fr, key, st, t):
        f = t[2]
        args = [self.operand(fr, st, a) for a in t[3]]
        dest, tgt = t[4], t[5]
        fv = self.operand(fr, st, f)
        if fv[0] == 'fn':
            info = json.loads(fv[2])
        else:
            info = None
        if info is None:
            res = self.call_value(fr, st, fv, args)
        else:
            res = self.call_fn(fr, key, st, info, args, t)
        out = []
        for kind, v, s in res:
            if kind == 'panic': out.append(('panic', v if v else t[1], s)); continue
            if tgt is None: continue
            s = s.copy()
            self.write_place(fr, s, dest, v)
            out.append(('go', tgt, s))
        return out

    def call_value(self, fr, st, fv, args):
        fv = self.deref(st, fv)
        if fv[0] == 'fn':
            return self.call_fn(fr, None, st, json.loads(fv[2]), args, None)
        if fv[0] == 'clo':
            return self.call_closure(st, fv, args)
        return [('ret', T.app('callfn', fv, *[self.deep(st, a) for a in args]), self.havoc(st, '?indirect', args))]

    def call_closure(self, st, clo, args):
        b = self.P.bodies[clo[1]]
        return self.call_body(clo[1], [clo] + args, st)

    def havoc(self, st, name, args):
        s = st
        b = self.P.bodies.get(name)
        for i, a in enumerate(args):
            if a[0] == 'ref':
                if b is not None and i < b['argc'] and b['locals'][i + 1].startswith('&') and not b['locals'][i + 1].startswith('&mut '): continue
                if s is st: s = st.copy()
                old = self.read(s, a[1], a[2])
                vals = tuple(T.unb(self.deref(st, x)) for x in args)
                self.write(s, a[1], a[2], ('app', '%s!%d' % (name, i), vals))
        return s

    def opaque_call(self, st, name, args):
        if any(self.deref(st, a)[0] == 'lazymap' for a in args): raise GiveUp('a closure with effects run by ' + name)
        vals = [T.unb(self.deep(st, a)) for a in args]
        self.stats.opaque_calls[name] = self.stats.opaque_calls.get(name, 0) + 1
        return [('ret', ('app', name, tuple(vals)), self.havoc(st, name, args))]

    def deep(self, st, v):
        """value with references replaced by what they point to"""
        v = self.deref(st, v)
        if mentions_any(v, lambda t: t[0] == 'ref'):
            v = subst_pred(v, lambda t: t[0] == 'ref', lambda t: self.deep(st, t))
        return v

    def call_fn(self, fr, key, st, info, args, t):
        name = info.get('res') or info['fn']
        if 'ctor' in info:
            return [('ret', mk_adt(info['ctor'][0], info['ctor'][1], args), st)]
        h = self.hook.get(name) or self.hook.get(info['fn'])
        if h is None and '*' in self.hook:
            r = self.hook['*'](self, st, info, args)
            if r is not None: return r
        if h is not None:
            r = h(self, st, info, args)
            if r is not None: return r
        import models
        if name in self.opaque: return self.opaque_call(st, name, args)
        if info['fn'] in ('std::iter::Iterator::next', 'std::iter::IntoIterator::into_iter') and info.get('local') and self.deref(st, args[0])[0] in ('coll', 'lvit'):
            m = models.TAB[info['fn']]
        else: m = models.lookup(info, self)
        if m is not None:
            r = m(self, fr, st, info, args)
            if r is not None: return r
        if info['fn'] == 'strum::IntoEnumIterator::iter' and info['args'] and all(T.NFIELDS.get((info['args'][0], v), 1) == 0 for v in DOMS.get(info['args'][0], ())):
            ad = info['args'][0]
            return [('ret', ('coll', 'seq', tuple(('one', mk_adt(ad, v, [])) for v in DOMS[ad])), st)]
        if info.get('local') and name in self.P.bodies:
            if name in self.P.auto:
                r = models.derived(self, st, name, info, args)
                if r is not None: return r
            if sum(k == name for k, f2 in self.stack) > self.hook.get('!unroll', 0):
                return self.recursive(st, name, args)
            return self.call_body(name, args, st)
        if info.get('local'):
            return self.opaque_call(st, name, args)
        self.stats.unmodelled[name] = self.stats.unmodelled.get(name, 0) + 1
        # what a closure given to unknown code may change is not known afterwards
        if any(a[0] == 'clo' and mentions_any(a, lambda t: t[0] == 'ref') for a in args):
            s = st.copy()
            def spoil(v, depth):
                for t in refs_in(v):
                    old = self.read(s, t[1], t[2])
                    if depth < 6: spoil(old, depth + 1)
                    if old[0] != 'ref': self.write(s, t[1], t[2], ('app', '%s!?' % name, (T.unb(self.deref(st, t)),)))
            for a in args:
                if a[0] == 'clo': spoil(a, 0)
            return self.opaque_call(s, '?' + name, args)
        return self.opaque_call(st, '?' + name, args)

    def recursive(self, st, name, args):
        root, rfr = self.stack[0]
        if name != root:
            # helper H to which the root delegates: H(args) == root(permuted args)
            for k, f in self.stack[1:]:
                if k == name:
                    m = {}
                    ok = True
                    for i, a in enumerate(f.args):
                        if a in rfr.args: m[rfr.args.index(a)] = i
                        elif self.deep(st, a) != self.deep(st, args[i]): ok = False
                    if ok and set(m) == set(range(len(rfr.args))) and self.delegates.get((root, name)):
                        return self.opaque_call(st, root, [args[m[j]] for j in range(len(rfr.args))])
                    break
        return self.opaque_call(st, name, args)

    delegates = {}
    notes = ()
    watch = None        # told about every loop; answers whether the loop is left to the specification

# ------------------------------------------------------------------ helpers
def refs_in(v, out=None):
    if out is None: out = []
    if isinstance(v, tuple):
        if v and v[0] == 'ref': out.append(v)
        else:
            for x in v: refs_in(x, out)
    return out

def merge_str_none(c): return c

def refs_in(v, acc=None):
    if acc is None: acc = []
    if isinstance(v, tuple):
        if v and v[0] == 'ref': acc.append(v[1])
        elif v and v[0] in ('lv', 'lvit', 'lvnext'): acc.append(v[2])
        else:
            if v and v[0] in ('sym', 'int', 'str', 'bool', 'fn'): return acc
            for c in v:
                if isinstance(c, tuple): refs_in(c, acc)
    return acc

def cmp_to_adt(t):
    return push_leaf(lambda l: ('adt', 'std::cmp::Ordering', l[1], ()), t)

def as_test(t):
    if t[0] == 'vn': return t
    if t[0] == 'ite': return t
    return as_dt(t)

def tree_group(t, f):
    return push_leaf(f, t)

def subst_pred(t, pred, f, memo=None):
    if memo is None: memo = {}
    if not isinstance(t, tuple): return t
    if t in memo: return memo[t]
    if t and isinstance(t[0], str) and pred(t): r = f(t)
    else: r = rebuild(t, lambda c: subst_pred(c, pred, f, memo))
    memo[t] = r
    return r

def is_boolish(v):
    return v[0] == 'ite' and all(l[0] == 'bool' for l in dt_leaves(v))

def bool_tree(t):
    if t[0] == 'ite':
        return dt_select(t[1], {v: bool_tree(c) for v, c in t[2]})
    return as_dt(t) if t != UNDEF else t

def atom_test(a, vals):
    if a[0] not in ('b', 'ge', 'disc', 'cmp'):
        # the outcome of a test after a substitution
        return push_leaf(lambda l: UNDEF if l == UNDEF else B(l[1] in vals), as_test(a))
    dom = sorted(domain(a), key=vkey)
    return mk_ite(a, {v: B(v in vals) for v in dom}) if a[0] != 'b' else (a[1] if vals == (True,) else bnot(a[1]))

def delta_dt(d):
    r = TRUE
    for a, v in d: r = band(r, atom_test(a, v))
    return r

def partitions_dt(parts):
    """canonical tree from disjoint partitions [(constraints, leaf)]"""
    t = UNDEF
    def comb(old, g, leaf):
        def f(x, c):
            if c == UNDEF: return x
            return leaf if c[1] else x
        return dt_apply(f, old, as_dt(g))
    # merge equal leaves first
    by = {}
    for d, leaf in parts:
        by[leaf] = bor(by.get(leaf, FALSE), delta_dt(d))
    for leaf, g in by.items(): t = comb_tree(t, as_dt(g), leaf)
    # leaves that are themselves trees are floated
    return tidy(float_leaf(t))

def comb_tree(old, g, leaf):
    def f(x, c):
        if c == UNDEF: return x
        return LEAFBOX(leaf) if c[1] else x
    return dt_apply_raw(f, old, g)

def LEAFBOX(l): return ('leaf', l)

def dt_apply_raw(f, a, b):
    atoms = [t[1] for t in (a, b) if t[0] == 'ite']
    if not atoms: return f(a, b)
    at = min(atoms, key=akey)
    dom = None
    for t in (a, b):
        if t[0] == 'ite' and t[1] == at: dom = [v for v, _ in t[2]]; break
    ch = {v: dt_apply_raw(f, restrict_raw(a, at, v), restrict_raw(b, at, v)) for v in dom}
    return mk_raw(at, ch)

def mk_raw(at, ch):
    s = set(ch.values())
    if len(s) == 1: return s.pop()
    return ('ite', at, tuple(sorted(ch.items(), key=lambda x: vkey(x[0]))))

def restrict_raw(t, atom, val):
    if t[0] != 'ite': return t
    if t[1] == atom:
        for v, c in t[2]:
            if v == val: return restrict_raw(c, atom, val)
        return UNDEF
    if atom[0] == 'ge' and t[1][0] == 'ge' and t[1][1] == atom[1]:
        if val and t[1][2] <= atom[2]: return restrict_raw(dict(t[2])[True], atom, val)
        if not val and t[1][2] >= atom[2]: return restrict_raw(dict(t[2])[False], atom, val)
    return mk_raw(t[1], {v: restrict_raw(c, atom, val) for v, c in t[2]})

def float_leaf(t):
    if t[0] == 'ite': return ('ite', t[1], tuple((v, float_leaf(c)) for v, c in t[2]))
    if t[0] == 'leaf':
        return t[1]
    return t

def tidy(t):
    """re-canonicalise (drops undefined branches, floats nested trees)"""
    if t[0] == 'ite':
        return dt_select(t[1], {v: tidy(c) for v, c in t[2]}) if True else t
    return t

def split_tree(t, d=()):
    """tree -> [(leaf, constraints)]"""
    if t == UNDEF: return []
    if t[0] == 'ite':
        out = []
        groups = {}
        for v, c in t[2]: groups.setdefault(c, []).append(v)
        for c, vs in groups.items(): out += split_tree(c, d + ((t[1], tuple(sorted(vs, key=vkey))),))
        return out
    return [(t, list(d))]

