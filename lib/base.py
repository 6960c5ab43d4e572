"""Shared context of the specifications: resolved names, constructors, opaque vocabulary."""
import resolve, mir, pp
import terms as T
from terms import *
from contract import PANIC, ANY, check, Infeasible, eta

OPT = T.OPTION

class Ctx:
    def __init__(self, P):
        self.P = P
        self.R = resolve.Resolver(P)
        self._vocab = None
        self.missing = []
    # -- names
    def m(self, ty, name): return self.R.m(ty, name)
    def f(self, name, hint=None): return self.R.f(name, hint)
    def a(self, name, hint=None): return self.R.a(name, hint)
    # -- terms
    def call(self, key, *args): return T.mk_app(key, tuple(args))
    def C(self, adt, variant, *fields): return mk_adt(adt, variant, list(fields))
    def field(self, x, adt, name, variant=None):
        d = self.P.adts[adt]
        for vn, fs in d_variants(d):
            if variant is not None and vn != variant: continue
            for i, fn in enumerate(fs):
                if fn == name: return fld(x, adt, vn, i)
        raise resolve.Missing('field %s of %s' % (name, adt))
    def struct(self, adt, **kw):
        d = self.P.adts[adt]
        for vn, fs in d_variants(d):
            if set(fs) == set(kw): return mk_adt(adt, vn, [kw[f] for f in fs])
        raise resolve.Missing('fields of %s changed' % adt)

def d_variants(d):
    return [(v['name'], [f[0] for f in v['fields']]) for v in d['variants']]

class Core(Ctx):
    """names of the interaction language and of its semantics"""
    METHODS = ['reverse', 'express_empty', 'contained_model_actions', 'get_characteristics', 'max_nested_loop_depth',
               'total_loop_num', 'involved_lifelines', 'involves_any_of', 'eliminate_lifelines', 'avoids_all_of', 'prune',
               'prune_with_affected', 'get_all_trace_actions', 'get_trace_actions_outside_loops',
               'get_atomic_actions_number', 'get_atomic_actions_number_outside_loops', 'has_coregions',
               'get_loop_depth', 'is_flat']
    LEAF = ['involved_lifelines', 'involves_any_of', 'eliminate_lifelines', 'avoids_all_of', 'get_all_atomic_actions',
            'get_first_atomic_action', 'get_specific_atomic_action', 'unfold_as_interaction', 'get_ms_id']
    FREE = ['get_recursive_alt_frags', 'get_recursive_par_frags', 'get_recursive_strict_frags', 'get_recursive_seq_frags',
            'get_recursive_coreg_frags', 'get_recursive_sync_frags', 'fold_recursive_alt_frags', 'fold_recursive_par_frags',
            'fold_recursive_strict_frags', 'fold_recursive_seq_frags', 'fold_recursive_coreg_frags',
            'global_frontier_rec', 'frontier_on_emission', 'frontier_on_reception', 'execute_interaction',
            'execute_interaction_leaf', 'execute_interaction_left', 'execute_interaction_right', 'execute_interaction_both',
            'make_follow_up_loop', 'execute_emission', 'execute_reception']
    def __init__(self, P):
        super().__init__(P)
        self.INT = self.a('Interaction', 'core::')
        self.EM = self.a('EmissionAction', 'core::')
        self.RC = self.a('ReceptionAction', 'core::')
        self.TR = self.a('EmissionTargetRef', 'core::')
        self.SY = self.a('CommunicationSynchronicity', 'core::')
        self.LK = self.a('LoopKind', 'core::')
        self.TA = self.a('TraceAction', 'core::')
        self.POS = self.a('Position', 'core::')
        self.im = {}
        for n in self.METHODS:
            try: self.im[n] = self.m('Interaction', n)
            except resolve.Missing: pass
        self.em, self.rc, self.fr = {}, {}, {}
        for n in self.LEAF:
            for d, t in ((self.em, 'EmissionAction'), (self.rc, 'ReceptionAction')):
                try: d[n] = self.m(t, n)
                except resolve.Missing: pass
        for n in self.FREE:
            try: self.fr[n] = self.f(n, 'core::')
            except resolve.Missing: pass
        self.vocab_int = set(self.im.values())
        self.vocab_leaf = set(self.em.values()) | set(self.rc.values())
        self.Empty = mk_adt(self.INT, 'Empty', [])
    def I(self, v, *f): return mk_adt(self.INT, v, list(f))
    def im_(self, n, *a): return self.call(self.need(self.im, n), *a)
    def need(self, d, n):
        if n not in d: raise resolve.Missing('function %s' % n)
        return d[n]
    def sub(self, i, v, k): return fld(i, self.INT, v, k)
    def fields(self, i, v):
        n = len([x for x in self.P.adts[self.INT]['variants'] if x['name'] == v][0]['fields'])
        return [fld(i, self.INT, v, k) for k in range(n)]

def union(*cs): 
    g = []
    for c in cs: g += list(gens_of(c, 'set'))
    return set_norm(coll('set', g))

SCHED = ('Strict', 'Seq', 'CoReg', 'Par')

def int_canon(C, nested=False):
    """normal form of interactions modulo the unit laws: empty operands, synchronisation on absent actions"""
    def is_empty(A, x):
        if x[0] == 'adt' and x[1] == C.INT: return x[2] == 'Empty'
        return A.b(eq(x, C.Empty))
    def can(A, t):
        if t[0] == 'ite': return t
        if t[0] == 'tup': return ('tup', tuple(can(A, c) for c in t[1]))
        if t[0] == 'adt' and t[1] != C.INT: return mk_adt(t[1], t[2], [can(A, c) for c in t[3]])
        t = eta(t)
        if t[0] != 'adt': return t
        v = t[2]
        f = [can(A, c) for c in t[3]]
        if any(c[0] == 'ite' for c in f): return mk_adt(C.INT, v, f)
        if v in SCHED:
            if is_empty(A, f[-2]): return f[-1]
            if is_empty(A, f[-1]): return f[-2]
            if v == 'CoReg' and not A.b(nonempty(f[0])): return mk_adt(C.INT, 'Seq', f[1:])
            # a weak repetition absorbs its own pruned iterations
            if v == 'Seq' and f[0][0] == 'app' and f[0][1] == C.im.get('prune') and f[0][2][0] == f[1] \
                and A.pc.known(('disc', f[1], C.INT)) == ('Loop',) and A.pc.known(('disc', C.sub(f[1], 'Loop', 0), C.LK)) == ('WWeakSeq',): return f[1]
        elif v == 'Alt':
            a, b = is_empty(A, f[0]), is_empty(A, f[1])
            if a and b: return C.Empty
            if a and A.var(f[1], C.INT) == 'Loop': return f[1]
            if b and A.var(f[0], C.INT) == 'Loop': return f[0]
        elif v == 'Loop':
            if is_empty(A, f[1]): return C.Empty
            if nested and A.pc.known(('disc', f[1], C.INT)) == ('Loop',):
                # a repetition of a repetition is the more permissive one
                k, k2, b = f[0], C.sub(f[1], 'Loop', 0), C.sub(f[1], 'Loop', 1)
                return eta(mk_adt(C.INT, 'Loop', [laxer(A, C, k2, k), b]))
        elif v == 'Sync':
            acts = C.need(C.im, 'get_all_trace_actions')
            hit = [bnot(disjoint(f[0], C.call(acts, x))) for x in f[1:]]
            if not any(A.b(h) for h in hit): return can(A, mk_adt(C.INT, 'Par', f[1:]))
        return mk_adt(C.INT, v, f)
    return can

LAX = ('PInterleaving', 'WWeakSeq', 'HHeadFirstWS', 'SStrictSeq')
def laxer(A, C, a, b):
    """the more permissive of two kinds of repetition"""
    if a == b: return a
    va, vb = A.var(a, C.LK), A.var(b, C.LK)
    return a if LAX.index(va) < LAX.index(vb) else b

def lift(t):
    """conditionals inside a value moved to its top"""
    if t[0] == 'adt' or t[0] == 'tup':
        fs = t[3] if t[0] == 'adt' else t[1]
        fs = tuple(lift(f) for f in fs)
        if not any(f[0] == 'ite' for f in fs): return t
        mk = (lambda *x: UNDEF if UNDEF in x else mk_adt(t[1], t[2], x)) if t[0] == 'adt' else (lambda *x: UNDEF if UNDEF in x else ('tup', tuple(x)))
        return T.dt_apply(mk, *fs)
    return t

def gens1(c, e):
    """if c: yield e"""
    return T.dt_apply(lambda a, b: UNDEF if UNDEF in (a, b) else (('gens', (('one', b),)) if a[1] else ('gens', ())), as_dt(c), lift(e))

def fm(kind, src, pred, elem):
    """[elem(x) for x in src if pred(x)]"""
    x = fresh()
    body = gens1(pred(x), elem(x))
    return set_norm(coll(kind, mk_for_over(x, src, kind, body))) if kind == 'set' else coll(kind, mk_for_over(x, src, kind, body))

LEMMAS = []     # functions of a collection and of an element of it: facts (collection, h, body) about that element

def agree(a, b, no=(), yes=(), memo=None):
    """two terms are equal under what their own conditions establish: no: (collection, h, body) of which no element satisfies the
    body, yes: of which one does"""
    if a == b: return True
    if memo is None: memo = {}
    key = (a, b, no, yes)
    r = memo.get(key)
    if r is None:
        r = memo[key] = _agree(a, b, no, yes, memo)
    return r

def absent(no, src, x, body, default):
    """body for an element x of src, changed where the facts exclude that element"""
    for s, h, b in no:
        if s == src: body = T.dt_apply(lambda l, v: UNDEF if l == UNDEF else default if l[1] else v, T.as_dt(open_(h, b, x)), body)
    return body

def settled(t, at, v, memo=None):
    """t with at decided, also inside its collections"""
    if memo is None: memo = {}
    if not isinstance(t, tuple) or not t: return t
    if t[0] == 'ite' and t[1] == at: return settled(dict(t[2])[v], at, v, memo)
    r = memo.get(t)
    if r is None:
        r = memo[t] = T.rebuild(t, lambda c: settled(c, at, v, memo)) if mentions(t, at) else t
    return r

def known_test(at, no, yes):
    """the test for existence at under the facts"""
    if at[0] != 'b' or at[1][0] != 'exists': return T.atom_dt(at)
    _, h, src, body = at[1]
    x = fresh()
    p0 = T.as_dt(open_(h, body, x))
    p = absent(no, src, x, p0, FALSE)
    if any(s == src and band(open_(h2, b2, x), bnot(p)) == FALSE for s, h2, b2 in yes): return TRUE
    return T.atom_dt(at) if p == p0 else T.as_dt(mk_exists(x, src, p))

def under(t, no, yes):
    """simplification of a value under the facts"""
    f = lambda c: under(c, no, yes) if isinstance(c, tuple) else c
    k = t[0] if t and isinstance(t[0], str) else None
    if k == 'coll':
        out = []
        for g in t[2]:
            if g[0] == 'for':
                x = fresh()
                src = f(g[2])
                b = absent(no, src, x, open_(g[1], g[3], x), ('gens', ()))
                out += mk_for_over(x, src, t[1], under(b, tuple(z for z in no if z[0] != src), yes))
            else: out += T.regen(g, f, t[1])
        return set_norm(coll(t[1], out)) if t[1] == 'set' else T.merge_str(coll(t[1], out))
    if k == 'gens': return ('gens', tuple(g for x in t[1] for g in f(('coll', 'seq', (x,)))[2]))
    if k == 'ite':
        a = known_test(t[1], no, yes)
        kids = {}
        for v, c in t[2]:
            n, y = no, yes
            if a == T.atom_dt(t[1]) and t[1][0] == 'b' and t[1][1][0] == 'exists':
                e = t[1][1]
                if v: y = y + ((e[2], e[1], e[3]),)
                else: n = n + ((e[2], e[1], e[3]),)
            kids[v] = under(c, n, y)
        return T.apply_test(a, kids)
    if k in ('exists', 'sum', 'first', 'fold', 'app', 'fld', 'lin', 'idx'): return t
    return T.rebuild(t, f)

def _agree(a, b, no, yes, memo):
    ites = [t for t in (a, b) if t[0] == 'ite']
    if ites:
        at = min((t[1] for t in ites), key=T.akey)
        t = known_test(at, no, yes)
        if t != T.atom_dt(at):
            f = lambda z: T.apply_test(t, {v: T.dt_restrict(z, at, v) for v in (True, False)})
            return agree(f(a), f(b), no, yes, memo)
        for v in domain(at):
            y, m = yes, no
            if at[0] == 'b' and at[1][0] == 'exists':
                e = at[1]
                if v: y = y + ((e[2], e[1], e[3]),)
                else: m = m + ((e[2], e[1], e[3]),)
            if not agree(settled(a, at, v), settled(b, at, v), m, y, memo): return False
        return True
    if UNDEF in (a, b): return True
    if 'coll' in (a[0], b[0]) and (no or yes):
        c, d = under(a, no, yes), under(b, no, yes)
        if c == d: return True
        if (c, d) != (a, b) and (T.collapse(c), T.collapse(d)) != (T.collapse(a), T.collapse(b)): return agree(c, d, no, yes, memo)
    if a[0] != b[0]: return False
    k = a[0]
    if k == 'adt': return a[1:3] == b[1:3] and all(agree(x, y, no, yes, memo) for x, y in zip(a[3], b[3]))
    if k in ('tup', 'gens'):
        return len(a[1]) == len(b[1]) and all(agree(x, y, no, yes, memo) for x, y in zip(a[1], b[1]))
    if k == 'coll':
        if len(a[2]) != len(b[2]): return False
        if a[1] == 'seq' or len(a[2]) == 1: return all(agree(x, y, no, yes, memo) for x, y in zip(a[2], b[2]))
        rest = list(b[2])
        for x in a[2]:
            for y in rest:
                if agree(x, y, no, yes, memo): rest.remove(y); break
            else: return False
        return True
    if k in ('one', 'spread'): return agree(a[1], b[1], no, yes, memo)
    if k == 'for':
        if not agree(a[2], b[2], no, yes, memo): return False
        x = fresh()
        f = lambda g: absent(no, a[2], x, open_(g[1], g[3], x), ('gens', ()))
        no = tuple(z for z in no if z[0] != a[2])
        for l in LEMMAS: no = no + tuple(l(a[2], x))
        a, b = f(a), f(b)
        # an element of a collection satisfies nothing that none of them does
        out = FALSE
        for at in sorted(set(T.atoms_of(a)) | set(T.atoms_of(b)), key=T.akey):
            if at[0] != 'b' or at[1][0] != 'app' or at[1][1] != 'contains': continue
            for s, h, p in no:
                if s != at[1][2][0]: continue
                out = bor(out, band(T.atom_dt(at), open_(h, p, at[1][2][1])))
        if out != FALSE:
            g = lambda z: T.dt_apply(lambda l, v: UNDEF if UNDEF in (l, v) or l[1] else v, out, z)
            a, b = g(a), g(b)
        return agree(a, b, no, yes, memo)
    return False

class Obl:
    """one obligation: a function of the analysed program against its specification"""
    def __init__(self, name, run): self.name, self.run = name, run

PROPS = {}
FLOORS = {}      # property -> number of rule instances confirmed by hand (fail closed below)
NOTES = {}       # property -> what the evidence says in addition
ASSUMPTIONS = ['the MIR emitted by the nightly compiler is what the stable compiler also builds',
               'the models of std, itertools, maplit, rand and pest functions in lib/models.py agree with those libraries',
               'recursive calls are replaced by the contract being checked (induction on the structure of the argument); termination is not decided',
               'partitions in which the analysed function panics are outside the contract unless the obligation says otherwise']
def prop(pid):
    def d(f): PROPS[pid] = f; return f
    return d
