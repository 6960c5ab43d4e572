"""Contracts: comparison of a function's computed summary with its specification, partition by partition."""
import time
import terms as T
from terms import *
import engine as E
import models, pp

PANIC = ('panic',)
ANY = ('anyvalue',)

class Fork(Exception): pass

class Asker:
    """answers the specification's questions from the partition, splitting it when undetermined"""
    def __init__(self, eng, pc, script):
        self.eng, self.pc, self.script, self.pos = eng, pc, script, 0
        self.alts = []
        self._m = None
    def choose(self, opts):
        if len(opts) == 1: return opts[0]
        if self.pos < len(self.script):
            i = self.script[self.pos]
        else:
            i = 0
            self.script.append(0)
        self.alts.append((self.pos, len(opts)))
        self.pos += 1
        return opts[i]
    def tree(self, t):
        """leaf of a decision tree"""
        t = simp(t, self)
        while t[0] == 'ite':
            k = self.pc.known(t[1])
            kids = dict(t[2])
            groups = {}
            for v in k: groups.setdefault(kids.get(v, UNDEF), []).append(v)
            opts = sorted(groups.items(), key=lambda x: [vkey(v) for v in x[1]])
            c, vs = self.choose(opts)
            p = self.pc.assume(t[1], vs)
            if p is None: raise Infeasible()
            if p is not self.pc: self.pc = p; self._m = None
            t = simp(c, self)
        if t == UNDEF: raise Infeasible()
        return t
    def b(self, t):
        r = self.tree(as_dt(t))
        if r[0] != 'bool': 
            r = self.tree(as_dt(r))
        return r[1]
    def var(self, t, adt):
        t = simp(t, self)
        d = disc_atom(t, adt)
        return self.tree(d)[1]
    def facts(self):
        if self._m is None: self._m = facts(self.pc)
        return self._m

class Infeasible(Exception): pass

def facts(pc):
    """rewriting facts implied by a partition"""
    m = {}
    for a, v in pc.items():
        if a[0] == 'disc' and len(v) == 1 and T.NFIELDS.get((a[2], v[0]), 1) == 0:
            m[a[1]] = ('adt', a[2], v[0], ())
        elif a[0] == 'b' and v == (True,) and a[1][0] == 'app' and a[1][1] == 'eq':
            x, y = a[1][2]
            # orient towards the smaller term
            kx, ky = (len(rk(x)), rk(x)), (len(rk(y)), rk(y))
            if kx > ky: x, y = y, x
            if not mentions(x, y) and y[0] not in ('int', 'str', 'adt', 'coll'): m.setdefault(y, x)
        elif a[0] == 'cmp' and v == ('Equal',):
            x, y = a[1], a[2]
            kx, ky = (len(rk(x)), rk(x)), (len(rk(y)), rk(y))
            if kx > ky: x, y = y, x
            if not mentions(x, y) and y[0] not in ('int', 'str', 'adt', 'coll'): m.setdefault(y, x)
    for L, (lo, hi) in pc.ge.items():
        if len(L) == 1 and L[0][1] == 1:
            x = L[0][0]
            if lo is not None and lo == hi: m[x] = I(lo)
            elif hi == 0 and T.nonneg(x): m[x] = I(0)
            if x[0] == 'app' and x[1] == 'len' and hi == 0: m[x[2][0]] = EMPTY
        elif lo is not None and lo == hi and len(L) == 2 and all(abs(c) == 1 for _, c in L):
            # a +- b == lo : rewrite the larger one
            (x, cx), (y, cy) = L
            if (len(rk(x)), rk(x)) < (len(rk(y)), rk(y)): x, cx, y, cy = y, cy, x, cx
            # cx*x + cy*y = lo -> x = cx*(lo - cy*y)
            r = mul(sub(I(lo), mul(y, I(cy))), I(cx))
            if not mentions(r, x): m[x] = r
    return m

def simp(t, A):
    pc = A.pc
    m = A.facts() if hasattr(A, 'facts') else facts(pc)
    memo = {}
    def go(t):
        if not isinstance(t, tuple): return t
        r = memo.get(t)
        if r is not None: return r
        x = t
        if x in m: x = m[x]
        if x[0:1] == ('ite',):
            k = pc.known(x[1])
            if len(k) == 1:
                kids = dict(x[2])
                r = go(kids.get(k[0], UNDEF))
                memo[t] = r
                return r
        elif x and x[0] in ('app', 'exists', 'fld', 'sym') :
            k = pc.d.get(('b', x))
            if k is not None and len(k) == 1: memo[t] = B(k[0]); return B(k[0])
        r = rebuild(x, go)
        if r in m: r = m[r]
        if r != x and r[0] in ('app', 'exists', 'fld'):
            k = pc.d.get(('b', r))
            if k is not None and len(k) == 1: r = B(k[0])
        memo[t] = r
        return r
    for _ in range(4):
        n = go(t)
        if n == t: return n
        t = n
        memo = {}
    return t

def consistent(pc):
    """the partition does not contradict itself through its own rewriting facts"""
    m = facts(pc)
    ex_t, ex_f, co_t = [], [], []
    class X: pass
    for a, v in pc.items():
        if a[0] == 'b':
            x = a[1]
            if x[0] == 'exists':
                (ex_t if v == (True,) else ex_f).append(x)
            if x[0] == 'app' and x[1] == 'contains' and v == (True,): co_t.append(x)
        mm = {k: w for k, w in m.items() if k != (a[1] if a[0] == 'disc' else None)}
        if a[0] == 'b' and a[1][0] == 'app' and a[1][1] == 'eq':
            mm = {k: w for k, w in mm.items() if not (k in a[1][2] and w in a[1][2])}
        if a[0] == 'cmp': mm = {k: w for k, w in mm.items() if not (k in a[1:] and w in a[1:])}
        if a[0] == 'ge':
            lo, hi = pc.ge.get(a[1], (None, None))
            if len(a[1]) == 1 or (lo is not None and lo == hi): mm = {k: w for k, w in mm.items() if not any(k == x for x, _ in a[1])}
        if not mm: continue
        try: t = T.reatom(a, lambda c: subst(c, mm))
        except Exception: continue
        t = PC_resolve(pc, t, a)
        if t[0] == 'bool' and t[1] not in v: return False
        if t[0] == 'vn' and t[1] not in v: return False
    for e in ex_t:
        for f in ex_f:
            if e[2] == f[2]:
                x = fresh()
                be, bf = open_(e[1], e[3], x), open_(f[1], f[3], x)
                if band(be, bnot(bf)) == FALSE: return False
    for c in co_t:
        for f in ex_f:
            if c[2][0] == f[2]:
                b = open_(f[1], f[3], c[2][1])
                b = PC_resolve(pc, as_dt(b), None)
                if b == TRUE: return False
    # non-empty / empty sources
    for e in ex_t:
        if PC_resolve(pc, as_dt(nonempty(e[2])), None) == FALSE: return False
    return True

def PC_resolve(pc, t, skip):
    if t[0] == 'ite':
        if t[1] == skip: return t
        k = pc.known(t[1])
        if len(k) == 1: return PC_resolve(pc, dict(t[2]).get(k[0], UNDEF), skip)
        ch = {v: PC_resolve(pc, c, skip) for v, c in t[2] if v in k}
        s = set(ch.values())
        if len(s) == 1: return s.pop()
    elif t[0] in ('app', 'exists', 'fld', 'sym') and ('b', t) != skip:
        k = pc.d.get(('b', t))
        if k is not None and len(k) == 1: return B(k[0])
    return t

def settle(A, t, boolean=False):
    """resolve conditional structure above binders"""
    t = simp(t, A)
    if t[0] == 'ite': return settle(A, A.tree(t))
    if t[0] in ('adt',):
        fs = []
        for c in t[3]: fs.append(settle(A, c))
        return eta(simp(mk_adt(t[1], t[2], fs), A))
    if t[0] == 'tup': return ('tup', tuple(settle(A, c) for c in t[1]))
    if t[0] == 'coll':
        if any(g[0] in ('one', 'spread') and has_ite(g[1]) for g in t[2]):
            gs = []
            for g in t[2]:
                if g[0] in ('one', 'spread'): gs.append((g[0], settle(A, g[1])))
                else: gs.append(g)
            out = coll(t[1], gs)
            return out
    if t[0] == 'app' and any(has_ite(c) for c in t[2]):
        return T.mk_app(t[1], tuple(settle(A, c) for c in t[2]))
    return t

def eta(t):
    """a value rebuilt from all the parts of one value is that value"""
    if t[0] != 'adt' or not t[3]: return t
    f0 = t[3][0]
    if f0[0] != 'fld': return t
    x = f0[1]
    for i, c in enumerate(t[3]):
        if c != fld(x, t[1], t[2], i) or c[0] != 'fld': return t
    return x

def has_ite(t):
    return mentions_any(t, lambda x: x[0] == 'ite')

def deepsettle(A, t):
    for _ in range(6):
        n = settle(A, t)
        if n == t: return n
        t = n
    return t

class Result:
    def __init__(self, cid):
        self.cid = cid
        self.violations = []
        self.undecided = []
        self.outcomes = 0
        self.leaves = 0
        self.panics = 0
        self.infeasible = 0
        self.loops = 0
        self.blocks = 0
        self.functions = []
        self.wall = 0.0
        self.where = ''

def unknown_in(t, vocab):
    """the term leaves the analysed fragment"""
    def p(x):
        if x[0] in ('top', 'lv', 'lvit', 'lvnext', 'undef', 'hasnext', 'uninit'): return True
        if x[0] == 'app':
            n = x[1]
            if n.startswith('?'): return True
            if '::' in n:
                base = n.split('!')[0].rstrip('@')
                return base not in vocab
        if x[0] == 'static': return x[1].startswith('const:')
        return False
    return mentions_any(t, p)

def unknown_why(t, vocab):
    out = []
    def p(x):
        if x[0] in ('top', 'lv', 'lvit', 'lvnext', 'undef', 'hasnext', 'uninit'): out.append(x[0])
        elif x[0] == 'app' and (x[1].startswith('?') or ('::' in x[1] and x[1].split('!')[0] not in vocab)): out.append(pp.short(x[1]))
        return False
    mentions_any(t, p)
    return sorted(set(out))

def check(P, cid, key, args, spec, vocab, mem=None, pc=None, canon=None, panics='explicit', hooks=None,
          outs=(), asbool=False, max_leaves=4000, observe=None, same_len=(), ids=(), same=None):
    """compare the summary of `key` with spec(A, *args) -> value | (value, {cell: final})
    same_len: collections assumed to have the same length (a data invariant of the program), the first one being the representative
    ids: functions assumed to return positions of these collections"""
    T.LENEQ.clear(); T.IDS.clear()
    for v in same_len[1:]: T.LENEQ[('app', 'len', (v,))] = ('app', 'len', (same_len[0],))
    for k in ids: T.IDS[k] = ('app', 'len', (same_len[0],))
    try: return check1(P, cid, key, args, spec, vocab, mem, pc, canon, panics, hooks, asbool, max_leaves, observe, same)
    finally: T.LENEQ.clear(); T.IDS.clear()

def check1(P, cid, key, args, spec, vocab, mem, pc, canon, panics, hooks, asbool, max_leaves, observe, same):
    res = Result(cid)
    t0 = time.time()
    body = P.bodies[key]
    res.where = '%s:%d' % (body['file'], body['line'])
    res.fn = key
    eng = E.Engine(P, vocab)
    eng.delegates = Delegates(P)
    if hooks: eng.hook.update(hooks)
    try:
        outc = eng.analyse(key, args, mem, pc)
    except E.GiveUp as e:
        res.undecided.append('%s: analysis stopped (%s)' % (key, e)); res.wall = time.time() - t0
        return res
    except RecursionError:
        res.undecided.append('%s: recursion limit' % key); res.wall = time.time() - t0
        return res
    res.functions = sorted(eng.stats.functions)
    res.loops, res.blocks = eng.stats.loops, eng.stats.blocks
    vocab = set(vocab) | {key}
    for kind, val, st in outc:
        res.outcomes += 1
        if kind == 'panic':
            res.panics += 1
            if panics == 'ignore' or (val != 'panic' and panics != 'all'): continue
        script = []
        while True:
            A = Asker(eng, st.pc, script)
            try:
                res.leaves += 1
                if res.leaves > max_leaves: res.undecided.append('%s: too many partitions' % key); break
                sv = spec(A, *args)
                if isinstance(sv, tuple) and len(sv) == 2 and isinstance(sv[1], dict): sret, sfin = sv
                else: sret, sfin = sv, {}
                if kind == 'panic':
                    if sret not in (PANIC, ANY) and consistent(A.pc):
                        record(res, 'panics', A, ('tup', ()), sret, st, vocab, unknown_pc(A.pc, vocab))
                elif sret == PANIC: pass
                else:
                    if sret != ANY:
                        compare(res, 'returns', A, val, sret, canon, vocab, asbool, same, observe)
                    for c, want in sfin.items():
                        got = st.mem.get(c, UNDEF)
                        compare(res, 'final value of %s' % c[1], A, got, want, canon, vocab, False, same)
            except Infeasible:
                res.infeasible += 1
            except E.GiveUp as e:
                res.undecided.append('%s: %s' % (key, e))
            # next script
            nxt = None
            alts = A.alts
            for pos, n in reversed(alts):
                if script[pos] + 1 < n:
                    nxt = script[:pos] + [script[pos] + 1]; break
            if nxt is None: break
            script = nxt
    res.wall = time.time() - t0
    return res

def unknown_pc(pc, vocab):
    for a, v in pc.items():
        if mentions_any(a, lambda x: x[0] in ('top',)): return True
        if any(unknown_in(c, vocab) for c in a[1:] if isinstance(c, tuple)): return True
    return False

def compare(res, what, A, got, want, canon, vocab, asbool, same=None, observe=None):
    obs = observe or (lambda x: x)
    g, w = obs(got), obs(want)
    if asbool:
        g, w = B(A.b(g)), B(A.b(w))
    else:
        for _ in range(4):
            g = deepsettle(A, g); w = deepsettle(A, w)
            if canon:
                g, w = canon(A, g), canon(A, w)
            g2, w2 = deepsettle(A, g), deepsettle(A, w)
            if (g2, w2) == (g, w): break
            g, w = g2, w2
    if agree(A, g, w, same): return
    # compare again under everything learnt while settling
    if not consistent(A.pc):
        res.infeasible += 1; return
    unk = unknown_in(g, vocab) or unknown_pc(A.pc, vocab)
    pc0, g0, w0 = A.pc, g, w
    rg, rw = (got, want) if observe else (g, w)
    for _ in range(2):
        # functions kept opaque, applied to constructors: replaced by what their code gives for these constructors
        g2, w2 = unfold_pc(A, res, vocab, rg, rw)
        if g2 is None: break
        rg, rw = g2, w2
        g, w = (obs(deepsettle(A, rg)), obs(deepsettle(A, rw))) if observe else (rg, rw)
        for _ in range(3):
            if asbool: g, w = B(A.b(g)), B(A.b(w))
            else:
                g, w = deepsettle(A, g), deepsettle(A, w)
                if canon: g, w = deepsettle(A, canon(A, g)), deepsettle(A, canon(A, w))
        if agree(A, g, w, same): return
        if not consistent(A.pc): res.infeasible += 1; return
        if not observe: rg, rw = g, w
    A.pc = pc0; A._m = None
    record(res, what, A, g0, w0, None, vocab, unk)

class Env:
    """what the tests passed so far say, while two decision trees are compared branch by branch"""
    def __init__(self, known=None, iv=None, eqs=None): self.known, self.iv, self.eqs = known or {}, iv or {}, eqs or {}
    def decide(self, a):
        if a in self.known: return self.known[a]
        if a[0] == 'ge' and len(a[1]) == 1 and a[1][0][1] == 1:
            lo, hi = self.iv.get(a[1][0][0], (0 if T.nonneg(a[1][0][0]) else None, None))
            if lo is not None and lo >= a[2]: return True
            if hi is not None and hi < a[2]: return False
        return None
    def learn(self, a, v):
        m, iv = {}, self.iv
        if a[0] == 'ge' and len(a[1]) == 1 and a[1][0][1] == 1:
            x = a[1][0][0]
            lo, hi = iv.get(x, (0 if T.nonneg(x) else None, None))
            if v: lo = a[2] if lo is None else max(lo, a[2])
            else: hi = a[2] - 1 if hi is None else min(hi, a[2] - 1)
            iv = {**iv, x: (lo, hi)}
            if lo is not None and lo == hi: m[x] = I(lo)
        elif a[0] == 'b' and v is True and a[1][0] == 'app' and a[1][1] == 'eq':
            x, y = sorted(a[1][2], key=lambda e: (len(rk(e)), rk(e)))
            if not mentions(x, y) and y[0] not in ('int', 'str', 'adt', 'coll'): m[y] = x
        elif a[0] == 'disc' and T.NFIELDS.get((a[2], v), 1) == 0: m[a[1]] = ('adt', a[2], v, ())
        return Env({**self.known, a: v}, iv, {**self.eqs, **m})

def sametree(g, w, env, n=0):
    """the two terms agree in every branch, given what the tests of the branch say"""
    if g == w: return True
    if n > 60: return False
    if env.eqs:
        g, w = subst(g, env.eqs), subst(w, env.eqs)
        if g == w: return True
    for x, y in ((g, w), (w, g)):
        if isinstance(x, tuple) and x and x[0] == 'ite':
            a = x[1]
            k = env.decide(a)
            kids = dict(x[2])
            if k is not None: return sametree(kids[k], y, env, n + 1) if k in kids else False
            return all(sametree(c, y, env.learn(a, v), n + 1) for v, c in x[2] if c != UNDEF)
    if not isinstance(g, tuple) or not isinstance(w, tuple) or not g or not w: return False
    for x, y in ((g, w), (w, g)):
        # a value against the same value rebuilt from its parts
        if x[0] == 'adt' and x[3] and y[0] != 'adt' and (x[1], x[2]) in T.NFIELDS:
            if len([k for k in T.NFIELDS if k[0] == x[1]]) == 1 and not mentions_any(y, lambda c: c[0] == 'ite'):
                return all(sametree(c, subst(fld(y, x[1], x[2], i), env.eqs) if env.eqs else fld(y, x[1], x[2], i), env, n + 1) for i, c in enumerate(x[3]))
    if g[0] != w[0]: return False
    if g[0] == 'adt': return g[1:3] == w[1:3] and len(g[3]) == len(w[3]) and all(sametree(a, b, env, n + 1) for a, b in zip(g[3], w[3]))
    if g[0] == 'for':
        x = fresh()
        return sametree(g[2], w[2], env, n + 1) and sametree(open_(g[1], g[3], x), open_(w[1], w[3], x), env, n + 1)
    if g[0] == 'coll': return g[1] == w[1] == 'seq' and seqsame(g[2], w[2], env, n) or g[1] == w[1] and len(g[2]) == len(w[2]) == 1 and sametree(g[2][0], w[2][0], env, n + 1)
    if g[0] in ('tup', 'gens'): return seqsame(g[1], w[1], env, n)
    if g[0] in ('one', 'spread'): return sametree(g[1], w[1], env, n + 1)
    if g[0] == 'app': return g[1] == w[1] and seqsame(g[2], w[2], env, n)
    if g[0] == 'fld': return g[2:] == w[2:] and sametree(g[1], w[1], env, n + 1)
    return False

def seqsame(a, b, env, n): return len(a) == len(b) and all(sametree(x, y, env, n + 1) for x, y in zip(a, b))

def agree(A, g, w, same):
    if g == w or T.collapse(g) == T.collapse(w) or (same and same(A, g, w)): return True
    try: return sametree(g, w, Env())
    except RecursionError: return False

def unfoldable(A, t, vocab, key):
    out = []
    def root(x):
        while x[0] == 'fld': x = x[1]
        return x[0] == 'sym' and '#' not in x[1]
    def known(x):
        if x[0] == 'adt': return True
        return root(x) and any(a[0] == 'disc' and a[1] == x and len(v) == 1 for a, v in A.pc.items())
    def shorter(x): return x[0] == 'app' and x[1] in ('removeat', 'concat', 'slice', 'tail') or x[0] == 'adt'
    def p(x):
        if x[0] == 'app' and x[1] in vocab and x[1] in A.eng.P.bodies and x not in out and x[2] \
           and (any(shorter(a) for a in x[2]) if x[1] == key else any(known(a) for a in x[2])) and len(x[2]) == A.eng.P.bodies[x[1]]['argc'] and not mentions_any(x, lambda y: y[0] in ('top', 'undef') or (y[0] == 'sym' and '#' in y[1])): out.append(x)
        return False
    mentions_any(t, p)
    return out

def unfold_pc(A, res, vocab, g, w):
    eng = A.eng
    apps = []
    for t in [g, w] + [a for a, _ in A.pc.items()]:
        for x in unfoldable(A, t, vocab, res.fn):
            if x not in apps: apps.append(x)
    m = {}
    for x in apps[:12]:
        args, mem = [], {}
        tys = eng.P.bodies[x[1]]['locals']
        for i, a in enumerate(x[2]):
            if str(tys[i + 1]).startswith('&mut'):
                c = ('p', 'unfold%d' % i); mem[c] = a; a = ('ref', c, ())
            args.append(a)
        try: outs = eng.analyse(x[1], args, mem, A.pc)
        except Exception: continue
        if any(k == 'panic' and v == 'panic' for k, v, _ in outs): continue
        outs = [(v, s) for k, v, s in outs if k == 'ret']
        if not outs or len(outs) > 6: continue
        outs = [(eng.deep(s, v), s) for v, s in outs]
        if any(v == x or mentions(v, x) for v, s in outs): continue
        v, s = A.choose(outs)
        A.pc = s.pc; A._m = None
        m[x] = v
    if not m: return None, None
    for a, vs in list(A.pc.items()):
        if a[0] in ('b', 'disc', 'cmp') and any(mentions(a[1], x) for x in m):
            try: t = T.reatom(a, lambda c: subst(c, m))
            except Exception: continue
            l = A.tree(t)
            if (l[1] if l[0] in ('bool', 'vn') else l) not in vs: raise Infeasible()
    return subst(g, m), subst(w, m)

def record(res, what, A, g, w, st, vocab, unk):
    msg = '%s: when %s: %s %s, specification says %s' % (pp.short(res.fn), pp.ppc(A.pc), what, pp.pt(g) if what != 'panics' else '', pp.pt(w))
    if unk: res.undecided.append('%s [outside the analysed fragment: %s]' % (msg, ', '.join(unknown_why(g, vocab))))
    else: res.violations.append(msg)

class Delegates:
    """root function whose result is exactly a helper's result"""
    def __init__(self, P): self.P = P
    def get(self, rh):
        root, helper = rh
        b = self.P.bodies[root]
        for bb in b['blocks']:
            if bb is None: continue
            t = bb[1]
            if t[0] == 'call' and t[2][0] == 'k' and (t[2][1].get('res') or t[2][1].get('fn')) == helper:
                if t[4] == [0, []]: return True
        return False
