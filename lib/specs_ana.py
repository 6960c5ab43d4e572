"""Specifications of the multi-trace analysis and of the exploration of executions."""
from base import *
from specs_core import *
from specs_transfo import trait_impl, T_of, kindfield, as_bag
import resolve

class Ana:
    """names of the analysis"""
    def __init__(self, C):
        self.C = C
        a = C.a
        self.NK, self.MF, self.TF = a('AnalysisNodeKind'), a('MultiTraceAnalysisFlags'), a('TraceAnalysisFlags')
        self.SK, self.SS = a('AnalysisStepKind'), a('SimulationStepKind')
        self.GV, self.LV, self.IR = a('AnalysisGlobalVerdict'), a('AnalysisLocalVerdict'), a('InconcReason')
        self.AK, self.SC = a('AnalysisKind'), a('SimulationConfiguration')
        self.LC, self.AC = a('SimulationLoopCriterion'), a('SimulationActionCriterion')
        self.CX, self.PA, self.LA = a('AnalysisContext'), a('AnalysisParameterization'), a('LocalAnalysisParameterization')
        self.CO, self.FE = a('CoLocalizations'), a('FrontierElement', 'core::')
        self.F, self.FK, self.FC = a('AnalysisFilter'), a('AnalysisFilterEliminationKind'), a('AnalysisFilterCriterion')
        self.ER = a('ExecutionResult', 'core::')
        self.H = lambda n: C.m('AnalysisProcessHandler', n)
        self.f = lambda x, adt, n: C.field(x, adt, n)
        self.coloc_ids = C.m('CoLocalizations', 'get_coloc_ids_from_lf_ids')
        self.lf_ids = C.m('CoLocalizations', 'get_lf_ids_from_coloc_ids')
    # parts of contexts and nodes
    def flags(self, n): return self.f(n, self.NK, 'flags')
    def inter(self, n): return self.f(n, self.NK, 'interaction')
    def canals(self, fl): return self.f(fl, self.MF, 'canals')
    def t(self, x, n): return self.f(x, self.TF, n)
    def mt(self, c): return self.f(c, self.CX, 'multi_trace')
    def coloc(self, c): return self.f(c, self.CX, 'co_localizations')
    def locs(self, co): return self.f(co, self.CO, 'locs_lf_ids')
    def trace(self, mt, x): return app('index', mt, ('idx', x))
    def ex(self, s, p):
        x = fresh(); return mk_exists(x, s, p(x))
    def empty_mt(self, fl, mt):
        """every trace is consumed"""
        return bnot(self.ex(self.canals(fl), lambda x: lt(self.t(x, 'consumed'), T.length(self.trace(mt, x)))))
    def hidden(self, fl): return self.ex(self.canals(fl), lambda x: self.t(x, 'no_longer_observed'))
    def singletons(self, co): return bnot(self.ex(self.locs(co), lambda x: lt(I(1), T.length(x))))
    def lv(self, n, *a): return mk_adt(self.LV, n, list(a))
    def gv(self, n, *a): return mk_adt(self.GV, n, list(a))
    def ir(self, n): return mk_adt(self.IR, n, [])
    def simulated(self, A, fl):
        cs = self.canals(fl)
        if A.b(self.ex(cs, lambda x: lt(I(0), self.t(x, 'simulated_before')))): return 'AsSlice'
        if A.b(self.ex(cs, lambda x: lt(I(0), self.t(x, 'simulated_after')))): return 'OnlyAfterEnd'
        return 'No'

def ana(C):
    if not hasattr(C, '_ana'): C._ana = Ana(C)
    return C._ana

GVS = ['Fail', 'WeakFail', 'Inconc', 'WeakPass', 'Pass']

@prop('P13')
def p13(C):
    """global verdict of an analysis"""
    N = ana(C)
    o = []
    g, l = sym('global', N.GV), sym('local', N.LV)
    def upd(A, g, l):
        v, w = A.var(g, N.GV), A.var(l, N.LV)
        ir = fld(l, N.LV, 'Inconc', 0)
        brings = {'Cov': N.gv('Pass'), 'TooShort': N.gv('WeakPass'), 'MultiPref': N.gv('WeakPass'), 'Slice': N.gv('WeakPass'),
                  'Inconc': N.gv('Inconc', ir), 'OutSim': N.gv('WeakFail'), 'Out': N.gv('Fail')}
        if w not in brings or v not in GVS: return ANY
        b = brings[w]
        return b if GVS.index(b[2]) > GVS.index(v) else g
    m = lambda n: C.m('AnalysisGlobalVerdict', n)
    o.append(C.go('join of the verdicts', m('update_with_local_verdict'), [g, l], upd))
    o.append(C.go('initial verdict', m('get_baseline_verdict'), [], lambda A: N.gv('Fail')))
    def goal(A, g, t):
        if A.var(t, OPT) == 'None': return FALSE
        t = fld(t, OPT, 'Some', 0)
        v, w = A.var(g, N.GV), A.var(t, N.GV)
        if v != w: return B(GVS.index(v) > GVS.index(w))
        if v != 'Inconc': return TRUE
        return ANY
    o.append(C.go('goal', m('is_goal_reached'), [g, sym('goal', OPT)], goal))
    def filtered(A, g, f):
        v = A.var(g, N.GV)
        if A.b(f) and v in ('Fail', 'WeakFail'): return N.gv('Inconc', N.ir('FilteredNodes'))
        return g
    o.append(C.go('filtered nodes', m('update_knowing_nodes_were_filtered_out'), [g, sym('has_filtered', 'bool')], filtered))
    o.append(C.go('verdict matters', m('is_verdict_pertinent_for_process'), [], lambda A: TRUE, asbool=True))
    return o

@prop('P14')
def p14(C):
    """local verdicts"""
    N = ana(C)
    o = []
    ctx, par, nk = sym('context', N.CX), sym('param', N.PA), sym('node', N.NK)
    AKof = lambda p: N.f(p, N.PA, 'ana_kind')
    def leaf(A, c, p, n):
        k = A.var(AKof(p), N.AK)
        fl, mt = N.flags(n), N.mt(c)
        if A.b(N.empty_mt(fl, mt)):
            whole = A.b(C.im_('express_empty', N.inter(n)))
            if k == 'Accept': return N.lv('Cov') if whole else N.lv('Out', FALSE)
            if k == 'Prefix': return N.lv('Cov') if whole else N.lv('TooShort')
            if k == 'Eliminate':
                if A.b(N.hidden(fl)):
                    return N.lv('MultiPref') if A.b(N.singletons(N.coloc(c))) else N.lv('Inconc', N.ir('UsingLifelineRemovalWithCoLocalizations'))
                return N.lv('Cov') if whole else N.lv('TooShort')
            if k == 'Simulate':
                s = N.simulated(A, fl)
                if s == 'AsSlice': return N.lv('Slice')
                if s == 'OnlyAfterEnd': return N.lv('MultiPref')
                return N.lv('Cov') if whole else N.lv('TooShort')
            return ANY
        if k == 'Prefix':
            done = N.ex(N.canals(fl), lambda x: eq(T.length(N.trace(mt, x)), N.t(x, 'consumed')))
            return N.lv('Inconc', N.ir('LackObs')) if A.b(done) else N.lv('Out', FALSE)
        if k in ('Accept', 'Eliminate'): return N.lv('Out', FALSE)
        if k == 'Simulate': return N.lv('OutSim', FALSE)
        return ANY
    inv = [N.canals(N.flags(nk)), N.mt(ctx), N.locs(N.coloc(ctx))]
    o.append(C.go('verdict of a terminal node', N.H('get_local_verdict_when_no_child'), [ctx, par, nk], leaf, same_len=inv))
    dead = C.f('is_dead_local_analysis')
    def static(A, c, p, nref):
        la = N.f(p, N.PA, 'locana')
        if A.var(la, OPT) == 'None': return none()
        d = app(dead)
        r = observe_dead(A, c, p)
        return r
    PR = C.a('AnalysisStaticLocalVerdictAnalysisProof')
    sd = C.f('get_local_analysis_starting_data')
    cell = ('p', 'node')
    box = {}
    def hdead(eng, st, info, args):
        a = [eng.deep(st, x) if x[0] != 'ref' or x[1] != cell else ('flagsref', x[2]) for x in args]
        box['args'] = a
        return [('ret', sym('dead', OPT), st)]
    def static(A, c, p, nref):
        la = N.f(p, N.PA, 'locana')
        if A.var(la, OPT) == 'None': return none()
        want = (N.f(c, N.CX, 'gen_ctx'), N.coloc(c), AKof(p), fld(la, OPT, 'Some', 0), N.f(p, N.PA, 'partial_order_reduction'), N.inter(nk), N.mt(c))
        if A.var(app(dead + '!r', *want), OPT) == 'None': return none()
        return some(N.lv('OutSim' if A.var(AKof(p), N.AK) == 'Simulate' else 'Out', TRUE))
    def h(eng, st, info, args):
        return [('ret', app(dead + '!r', *[eng.deep(st, a) for a in args[:7]]), st)]
    def obs(t):
        # the verdict; the accompanying drawing data is not part of it
        if t[0] == 'adt' and t[1] == OPT and t[2] == 'Some' and t[3][0][0] == 'tup': return some(t[3][0][1][0])
        return t
    o.append(C.go('verdict of local analyses', N.H('get_local_verdict_from_static_analysis'), [ctx, par, ('ref', cell, ())], static,
                  mem={cell: nk}, hooks={dead: h}, more=[sd, dead], observe=obs))
    lv = sym('verdict', N.LV)
    o.append(C.go('only failures stop a branch', N.H('pursue_process_after_static_verdict'), [ctx, par, lv],
                  lambda A, c, p, l: B(A.var(l, N.LV) not in ('Out', 'OutSim')), asbool=True))
    return o

def opt(C, ty, name):
    """a helper that exists at this moment: a change that removes it is not a change of behaviour"""
    try: return C.m(ty, name)
    except resolve.Missing: return None

def sim_reset(C, N, A, cfg, length, i, which, direct=False):
    k = opt(C, 'SimulationConfiguration', 'get_reset_rem_' + which)
    if k and not direct: return C.call(k, cfg, length, i)
    if which == 'loop':
        c = N.f(cfg, N.SC, 'loop_crit'); v = A.var(c, N.LC)
        n = {'MaxDepth': lambda: C.im_('max_nested_loop_depth', i), 'MaxNum': lambda: C.im_('total_loop_num', i),
             'SpecificNum': lambda: fld(c, N.LC, 'SpecificNum', 0), 'None': lambda: I(0)}[v]()
    else:
        c = N.f(cfg, N.SC, 'act_crit'); v = A.var(c, N.AC)
        n = {'MaxNumOutsideLoops': lambda: C.im_('get_atomic_actions_number_outside_loops', i),
             'SpecificNum': lambda: fld(c, N.AC, 'SpecificNum', 0), 'None': lambda: I(0)}[v]()
    if A.b(N.f(cfg, N.SC, 'multiply_by_multitrace_length')): return mul(n, length)
    return n

@prop('P15')
def p15(C):
    """steps of an analysis and bookkeeping of the traces"""
    N = ana(C)
    o = []
    ctx, par, nk = sym('context', N.CX), sym('param', N.PA), sym('node', N.NK)
    step = N.H('process_new_step'); b = C.P.bodies[step]
    fl_upd, hide = C.m('MultiTraceAnalysisFlags', 'update_on_execution'), C.m('MultiTraceAnalysisFlags', 'update_on_hide')
    exe = C.need(C.fr, 'execute_interaction')
    el = C.im['eliminate_lifelines']
    pst, stp = sym('parent', T_of(b, 3)), sym('step', T_of(b, 4))
    AKof = lambda p: N.f(p, N.PA, 'ana_kind')
    def proc(A, c, p, ps, sp, ni, nc):
        n, s = kindfield(C, ps, b, 3), kindfield(C, sp, b, 4)
        v = A.var(s, N.SK)
        i, d, co = N.inter(n), N.f(n, N.NK, 'ana_loop_depth'), N.coloc(c)
        if v == 'EliminateNoLongerObserved':
            ids = fld(s, N.SK, v, 0)
            return C.struct(N.NK, interaction=C.call(el, i, C.call(N.lf_ids, co, ids)),
                            flags=C.call(hide, N.flags(n), N.f(c, N.CX, 'gen_ctx'), ids), ana_loop_depth=d)
        if v != 'Execute': return ANY
        fe, consu, sim = [fld(s, N.SK, v, k) for k in range(3)]
        E = C.exe(i, N.f(fe, N.FE, 'position'), N.f(fe, N.FE, 'target_lf_ids'), TRUE)
        ni_, aff = N.f(E, N.ER, 'interaction'), N.f(E, N.ER, 'affected_lifelines')
        cfg = some(fld(AKof(p), N.AK, 'Simulate', 0)) if A.var(AKof(p), N.AK) == 'Simulate' else none()
        ld = N.f(fe, N.FE, 'max_loop_depth')
        fl = C.call(fl_upd, N.flags(n), cfg, consu, sim, C.call(N.coloc_ids, co, aff), ld, N.f(c, N.CX, 'init_multitrace_length'), ni_)
        return C.struct(N.NK, interaction=ni_, flags=fl, ana_loop_depth=add(d, ld))
    o.append(C.go('successor node', step, [ctx, par, pst, stp, sym('id', 'u32'), sym('cnt', 'u32')], proc,
                  more=[fl_upd, hide, N.coloc_ids, N.lf_ids, exe]))
    crit = N.H('get_criterion'); b2 = C.P.bodies[crit]
    def cri(A, c, p, ps, sp, ni, nc):
        n, s = kindfield(C, ps, b2, 3), kindfield(C, sp, b2, 4)
        v = A.var(s, N.SK)
        d = N.f(n, N.NK, 'ana_loop_depth')
        if v == 'Execute': d = add(d, N.f(fld(s, N.SK, v, 0), N.FE, 'max_loop_depth'))
        elif v != 'EliminateNoLongerObserved': return ANY
        return C.struct(N.FC, loop_depth=d)
    o.append(C.go('quantity compared with the filters', crit, [ctx, par, sym('parent', T_of(b2, 3)), sym('step', T_of(b2, 4)), sym('id', 'u32'), sym('cnt', 'u32')], cri))
    am, sm = C.m('AnalysisParameterization', 'get_action_matches_in_analysis'), C.m('AnalysisParameterization', 'get_simulation_matches_in_analysis')
    def collect(A, c, p, n):
        fl, mt = N.flags(n), N.mt(c)
        if A.b(N.empty_mt(fl, mt)): return EMPTY
        k = A.var(AKof(p), N.AK)
        por = N.f(p, N.PA, 'partial_order_reduction')
        # the flag that tells whether lifelines are removed is not used
        acts = lambda h: C.call(am, p, por, app('any'), c, N.inter(n), fl)
        if k in ('Accept', 'Prefix'): return acts(FALSE)
        if k == 'Simulate': return C.call(sm, p, c, N.inter(n), fl)
        if k != 'Eliminate': return ANY
        done = lambda x: band(bnot(N.t(x, 'no_longer_observed')), eq(T.length(N.trace(mt, x)), N.t(x, 'consumed')))
        if A.b(N.ex(N.canals(fl), done)):
            return single('seq', mk_adt(N.SK, 'EliminateNoLongerObserved', [fm('set', N.canals(fl), done, lambda x: ('idx', x))]))
        return acts(TRUE)
    def ham(eng, st, info, args):
        a = [eng.deep(st, x) for x in args]
        a[2] = app('any')
        return [('ret', C.call(am, *a), st)]
    inv = [N.canals(N.flags(nk)), N.mt(ctx), N.locs(N.coloc(ctx))]
    o.append(C.go('next steps', N.H('collect_next_steps'), [ctx, par, nk], collect, more=[am, sm], hooks={am: ham}, same_len=inv))
    # bookkeeping
    fl, ids = sym('flags', N.MF), sym('ids', 'set')
    cs = N.canals(fl)
    def oh(A, f, g, ids):
        bad = N.ex(cs, lambda x: band(contains(ids, ('idx', x)), N.t(x, 'no_longer_observed')))
        if A.b(bad): return PANIC
        new = lambda x: C.struct(N.TF, consumed=N.t(x, 'consumed'), no_longer_observed=bor(contains(ids, ('idx', x)), N.t(x, 'no_longer_observed')),
                                 dirty_local_counter=N.t(x, 'dirty_local_counter'), simulated_before=N.t(x, 'simulated_before'), simulated_after=N.t(x, 'simulated_after'))
        return C.struct(N.MF, canals=fm('seq', cs, lambda x: TRUE, new), rem_loop_in_sim=N.f(f, N.MF, 'rem_loop_in_sim'), rem_act_in_sim=N.f(f, N.MF, 'rem_act_in_sim'))
    o.append(C.go('bookkeeping of a removal', hide, [fl, sym('gen_ctx', ''), ids], oh))
    cfgo, consu, simm, aff = sym('sim_config', OPT), sym('consu', 'set'), sym('sim_map', 'map'), sym('affected', 'set')
    ld, il, ni = sym('loop_depth', 'u32'), sym('init_len', 'usize'), sym('new_interaction', C.INT)
    def oe(A, f, cfg, consu, simm, aff, ld, il, i):
        def simk(x, k):
            return T.band(T.app('haskey', simm, ('idx', x)), isvar(T.app('mapval', simm, ('idx', x)), N.SS, k))
        bump = lambda c, x: ite(as_dt(c), add(x, I(1)), x)
        def new(x):
            d = N.t(x, 'dirty_local_counter')
            dirty = ite(lt(I(0), d), add(d, I(1)), ite(as_dt(contains(aff, ('idx', x))), I(1), I(0)))
            return C.struct(N.TF, consumed=bump(contains(consu, ('idx', x)), N.t(x, 'consumed')), no_longer_observed=N.t(x, 'no_longer_observed'),
                            dirty_local_counter=dirty, simulated_before=bump(simk(x, 'BeforeStart'), N.t(x, 'simulated_before')),
                            simulated_after=bump(simk(x, 'AfterEnd'), N.t(x, 'simulated_after')))
        canals = fm('seq', cs, lambda x: TRUE, new)
        x = fresh()
        consumed = mk_sum(x, cs, N.t(x, 'consumed'))
        rl, ra = N.f(f, N.MF, 'rem_loop_in_sim'), N.f(f, N.MF, 'rem_act_in_sim')
        if A.var(cfg, OPT) == 'None': return C.struct(N.MF, canals=canals, rem_loop_in_sim=I(0), rem_act_in_sim=I(0))
        cf = fld(cfg, OPT, 'Some', 0)
        if A.b(nonempty(consu)):
            if A.b(N.f(cf, N.SC, 'reset_crit_after_exec')):
                rem = sub(il, add(consumed, T.length(consu)))
                return C.struct(N.MF, canals=canals, rem_loop_in_sim=sim_reset(C, N, A, cf, rem, i, 'loop'), rem_act_in_sim=sim_reset(C, N, A, cf, rem, i, 'act'))
            return C.struct(N.MF, canals=canals, rem_loop_in_sim=rl, rem_act_in_sim=ra)
        rem = sub(il, consumed)
        mn = lambda a, b: ite(lt(b, a), b, a)
        sat = lambda a, b: ite(lt(b, a), sub(a, b), I(0))
        return C.struct(N.MF, canals=canals, rem_loop_in_sim=mn(sim_reset(C, N, A, cf, rem, i, 'loop'), sat(rl, ld)),
                        rem_act_in_sim=mn(sim_reset(C, N, A, cf, rem, i, 'act'), sat(ra, I(1))))
    o.append(C.go('bookkeeping of an execution', fl_upd, [fl, cfgo, consu, simm, aff, ld, il, ni], oe,
                  more=[k for k in (opt(C, 'SimulationConfiguration', 'get_reset_rem_' + w) for w in ('loop', 'act')) if k]))
    n0 = sym('canals_num', 'usize')
    def init(A, n, a, b):
        z = C.struct(N.TF, consumed=I(0), no_longer_observed=FALSE, dirty_local_counter=I(0), simulated_before=I(0), simulated_after=I(0))
        return C.struct(N.MF, canals=fm('seq', T.app('range', I(0), n), lambda x: TRUE, lambda x: z), rem_loop_in_sim=a, rem_act_in_sim=b)
    o.append(C.go('initial bookkeeping', C.m('MultiTraceAnalysisFlags', 'new_init'), [n0, sym('rl', 'u32'), sym('ra', 'u32')], init))
    return o

def ungroup(t):
    """what a list of lists of grouped elements contains, in whatever order"""
    if t[0] != 'coll': return t
    out = []
    for g in t[2]:
        if g[0] != 'for': out.append(g); continue
        src = g[2]
        while src[0] == 'app' and src[1] in ('sortedby', 'sorted', 'rev'): src = src[2][0]
        if src[0] == 'app' and src[1] == 'groupby':
            x = fresh(); p = fresh()
            b = open_(g[1], g[3], x)
            es = T.tfld(x, 1)
            ok = True
            def leaf(l):
                nonlocal ok
                r = ()
                for k in l[1]:
                    if k[0] == 'for' and k[2] == es:
                        y = fresh()
                        i = subst(open_(k[1], k[3], y), {y: T.tfld(p, 1)})
                        if i[0] != 'gens': ok = False; return l
                        r += i[1]
                    else: ok = False
                return ('gens', r)
            nb = subst(push1(lambda l: UNDEF if l == UNDEF else leaf(l), b), {T.tfld(x, 0): T.tfld(p, 0)})
            if ok and not mentions(nb, x) and not mentions(nb, ('idx', p)):
                out += mk_for_over(p, src[2][0], 'seq', nb); continue
        if src != g[2]:
            x = fresh(); b = open_(g[1], g[3], x)
            if not mentions(b, ('idx', x)): out += mk_for_over(x, src, 'seq', b); continue
        out.append(g)
    return ('coll', t[1], tuple(sorted(out, key=rk)))

def bag(A, t):
    return push1(lambda l: UNDEF if l == UNDEF else ungroup(l), t) if t[0] in ('ite', 'coll') else t

@prop('P23')
def p23(C):
    """executions that match the multi-trace"""
    N = ana(C)
    o = []
    ctx, par, i, fl = sym('context', N.CX), sym('param', N.PA), sym('interaction', C.INT), sym('flags', N.MF)
    por, elim = sym('por', 'bool'), sym('uses_removal', 'bool')
    front = C.f('global_frontier', 'core::')
    el = C.m('Interaction', 'eliminate_lifelines')
    lfco = C.m('CoLocalizations', 'get_lf_coloc_id')
    colfs = C.m('CoLocalizations', 'get_coloc_lfs_ids')
    univ = C.m('AnalysisParameterization', 'is_action_univocal_in_analysis')
    voc = [front, el, lfco, colfs, N.coloc_ids]
    E_ = lambda e, n: N.f(e, N.FE, n)
    cs, co = N.canals(fl), N.coloc(ctx)
    head = lambda x: app('index', N.trace(N.mt(ctx), x), N.t(x, 'consumed'))
    has_head = lambda x: lt(N.t(x, 'consumed'), T.length(N.trace(N.mt(ctx), x)))
    lf = lambda a: C.field(a, C.TA, 'lf_id')
    def on(e, c):
        """the actions of an element that occur on a co-localization"""
        return fm('set', E_(e, 'target_actions'), lambda a: eq(C.call(lfco, co, lf(a)), mk_adt(OPT, 'Some', [c])), lambda a: a)
    def involved(e): return C.call(N.coloc_ids, co, E_(e, 'target_lf_ids'))
    def matches(e):
        return bnot(N.ex(involved(e), lambda c: bnot(N.ex(cs, lambda x: band(eq(('idx', x), c), band(has_head(x), eq(head(x), on(e, c))))))))
    inv = dict(same_len=[cs, N.mt(ctx), N.locs(co)], ids=[N.coloc_ids])
    exe = lambda e: mk_adt(N.SK, 'Execute', [e, involved(e), T.empty('seq')])
    fr = C.call(front, i, TRUE)
    some = lambda e: nonempty(involved(e))
    least = lambda e: fld(app('itmin', involved(e)), OPT, 'Some', 0)
    def steps(A, p, u, r, c, i, f):
        every = fm('seq', fr, lambda e: band(some(e), matches(e)), exe)
        if not A.b(u): return every
        keyed = lambda e, x: band(band(some(e), matches(e)), eq(least(e), ('idx', x)))
        def alone(x):
            r = band(has_head(x), N.ex(fr, lambda e: keyed(e, x)))
            r = band(r, bnot(N.ex(fr, lambda e: band(keyed(e, x), bnot(eq(E_(e, 'target_actions'), head(x)))))))
            return band(r, C.call(univ, c, i, ('idx', x), head(x)))
        if not A.b(N.ex(cs, alone)): return every
        x = fresh()
        first = T.mk_first(x, cs, alone(x))
        its = fm('seq', fr, lambda e: keyed(e, first), lambda e: e)
        if not A.b(eq(T.length(its), I(1))): return ANY
        return single('seq', exe(T.index(its, I(0))))
    def sole(A, t):
        """the last element of a list of one is its first"""
        def one(v):
            t = as_dt(eq(T.length(v), I(1)))
            while t[0] == 'ite':
                k = A.pc.known(t[1])
                if len(k) != 1: return False
                t = dict(t[2])[k[0]]
            return t == TRUE
        def go(t):
            if not isinstance(t, tuple): return t
            if t and t[0] == 'app' and t[1] == 'last' and one(t[2][0]): return T.index(go(t[2][0]), I(0))
            return T.rebuild(t, go)
        return bag(A, go(t))
    o.append(C.go('matches', C.m('AnalysisParameterization', 'get_action_matches_in_analysis'), [par, por, elim, ctx, i, fl], steps, more=voc + [univ], canon=sole, **inv))
    # only one continuation on a co-localization
    def univocal(A, c, i, x, h):
        away = fm('set', T.app("range", I(0), T.length(C.field(N.f(c, N.CX, "gen_ctx"), C.a("GeneralContext"), "lf_names"))), lambda l: bnot(T.contains(C.call(colfs, N.coloc(c), x), l)), lambda l: l)
        alone = C.call(front, C.call(el, i, away), FALSE)
        e = fresh()
        n = T.mk_sum(e, alone, ite(eq(E_(e, 'target_actions'), h), I(1), I(0)))
        return lt(n, I(2))
    o.append(C.go('univocal', univ, [ctx, i, sym('co-localization', 'usize'), sym('head', C.P.bodies[univ]['locals'][4])], univocal, more=[front, el, colfs], asbool=True))
    def same(A, g, w):
        LEMMAS[:] = [lambda s, x: [lemma(x)] if s == fr else [positions(x)] if s[:2] == ('app', subsets) else []]
        try: return agree(g, w)
        finally: LEMMAS.clear()
    # simulated steps
    isok = C.m('AnalysisParameterization', 'is_ok_to_simulate')
    subsets = C.f('powerset')
    kind_ = N.f(par, N.PA, 'ana_kind')
    before = N.f(fld(kind_, N.AK, 'Simulate', 0), N.SC, 'sim_before')
    # every lifeline is on a co-localization
    placed = '%s@' % lfco
    colof = lambda a: app(placed, co, lf(a))
    def put(eng, st, info, args): return [('ret', mk_adt(OPT, 'Some', [app(placed, *[eng.deref(st, a) for a in args])]), st)]
    there = lambda e, c: fm('set', E_(e, 'target_actions'), lambda a: eq(colof(a), c), lambda a: a)
    matched = lambda e, x: band(has_head(x), band(nonempty(there(e, ('idx', x))), eq(head(x), there(e, ('idx', x)))))
    seen = lambda e, a: N.ex(cs, lambda x: band(matched(e, x), T.contains(head(x), a)))
    left = lambda e: fm('set', E_(e, 'target_actions'), lambda a: bnot(seen(e, a)), lambda a: a)
    def matched_at(e, c):
        x = index_(cs, c); h = head_at(c)
        return band(lt(N.t(x, 'consumed'), T.length(app('index', N.mt(ctx), c))), band(nonempty(there(e, c)), eq(h, there(e, c))))
    index_ = lambda s, c: app('index', s, c)
    head_at = lambda c: app('index', app('index', N.mt(ctx), c), N.t(index_(cs, c), 'consumed'))
    def lemma(e):
        """no action left is on a co-localization whose head is matched: that head is all the actions of the element on it"""
        a = fresh()
        c = colof(a)
        inst = band(matched_at(e, c), T.contains(head_at(c), a))
        told = subst(inst, {head_at(c): there(e, c)})
        told = subst(told, {T.contains(E_(e, 'target_actions'), a): TRUE})
        if told != subst(matched_at(e, c), {head_at(c): there(e, c)}): raise resolve.Missing('lemma on matched heads')
        h, (b,) = T.close(a, band(bnot(seen(e, a)), matched_at(e, c)))
        return E_(e, 'target_actions'), h, b
    def positions(k):
        """subsets of the matched co-localizations"""
        c = fresh()
        h, (b,) = T.close(c, bnot(lt(c, T.length(cs))))
        return k, h, b
    def at(c): return N.t(app('index', cs, c), 'consumed'), T.length(app('index', N.mt(ctx), c))
    def kind(c):
        n, l = at(c)
        return ite(eq(n, l), mk_adt(N.SS, 'AfterEnd', []), mk_adt(N.SS, 'BeforeStart', []))
    def simulable(c):
        n, l = at(c)
        return bor(eq(n, l), band(before, eq(n, I(0))))
    def simulated(A, p, c, i, f):
        if A.var(kind_, N.AK) != 'Simulate': return ANY
        may = lambda e: C.call(isok, par, e, i, fl)
        # reached by no multi-trace: an action left on a co-localization whose head is matched
        def step(e, *parts):
            keys = lambda c: [N.ex(s, lambda a: eq(k(a), c)) for s, k in parts]
            def free(c):
                r = TRUE
                for k in keys(c): r = band(r, bnot(k))
                return r
            m = []
            for s, k in parts:
                x = fresh()
                m += mk_for_over(x, s, 'map', gens1(TRUE, ('tup', (k(x), kind(k(x))))))
            return mk_adt(N.SK, 'Execute', [e, fm('set', involved(e), free, lambda c: c), coll('map', m)])
        def one(e):
            L = left(e)
            ok = band(bor(bnot(nonempty(L)), may(e)), bnot(N.ex(L, lambda a: bnot(simulable(colof(a))))))
            hits = fm('seq', cs, lambda x: matched(e, x), lambda x: ('idx', x))
            same = lambda c: c
            first = gens1(ok, step(e, (L, colof)))
            K = fresh()
            more = mk_for_over(K, C.call(subsets, hits), 'seq', gens1(band(nonempty(K), bnot(N.ex(K, lambda c: bnot(simulable(c))))), step(e, (L, colof), (K, same))))
            rest = push1(lambda l: UNDEF if l == UNDEF else ('gens', tuple(more) if l[1] else ()), band(ok, band(nonempty(hits), may(e))))
            return T.dt_apply(lambda a, b: UNDEF if UNDEF in (a, b) else ('gens', a[1] + b[1]), first, rest)
        e = fresh()
        return coll('seq', mk_for_over(e, fr, 'seq', one(e)))
    o.append(C.go('simulated steps', C.m('AnalysisParameterization', 'get_simulation_matches_in_analysis'), [par, ctx, i, fl], simulated, more=[front, lfco, N.coloc_ids, isok, subsets],
                  hooks={lfco: put}, same=same, panics='ignore', same_len=inv['same_len'], ids=[N.coloc_ids, placed]))
    return o

@prop('P16')
def p16(C):
    """memoization of analysed and explored nodes"""
    N = ana(C)
    o = []
    nk, mn = sym('node', N.NK), sym('memoized', N.NK)
    def ana_memo(A, n, m):
        fn, fm_ = N.flags(n), N.flags(m)
        cs, cm = N.canals(fn), N.canals(fm_)
        g = lambda x, y, k: (N.t(x, k), N.t(y, k))
        def differs(x):
            y = app('index', cm, ('idx', x))
            ne = lambda k: bnot(eq(*g(x, y, k)))
            lower = lambda k: lt(*g(x, y, k))
            return bor(bor(ne('consumed'), ne('no_longer_observed')), bor(lower('simulated_before'), lower('simulated_after')))
        le_ = lambda k: le(N.f(fn, N.MF, k), N.f(fm_, N.MF, k))
        r = eq(N.inter(n), N.inter(m))
        r = band(r, band(le_('rem_loop_in_sim'), le_('rem_act_in_sim')))
        r = band(r, le(N.f(m, N.NK, 'ana_loop_depth'), N.f(n, N.NK, 'ana_loop_depth')))
        return band(r, bnot(N.ex(cs, differs)))
    o.append(C.go('analysis', C.m('AnalysisNodeKind', 'is_included_for_memoization'), [nk, mn], ana_memo, asbool=True,
                  same_len=[N.canals(N.flags(nk)), N.canals(N.flags(mn))]))
    XN = C.a('ExplorationNodeKind')
    xn, xm = sym('node', XN), sym('memoized', XN)
    o.append(C.go('exploration', C.m('ExplorationNodeKind', 'is_included_for_memoization'), [xn, xm],
                  lambda A, n, m: band(eq(C.field(n, XN, 'interaction'), C.field(m, XN, 'interaction')), le(C.field(m, XN, 'loop_depth'), C.field(n, XN, 'loop_depth'))), asbool=True))
    return o

@prop('P17')
def p17(C):
    """filters and priorities"""
    N = ana(C)
    o = []
    for nm, pre in (('analysis', 'Analysis'), ('exploration', 'Exploration')):
        F, FK, FC = C.a(pre + 'Filter'), C.a(pre + 'FilterEliminationKind'), C.a(pre + 'FilterCriterion')
        f, d, n, c = sym('filter', F), sym('depth', 'u32'), sym('node_counter', 'u32'), sym('criterion', FC)
        def ap(A, f, d, n, c, F=F, FK=FK, FC=FC):
            v = A.var(f, F); x = fld(f, F, v, 0)
            over = {'MaxProcessDepth': lt(x, d), 'MaxLoopInstanciation': lt(x, C.field(c, FC, 'loop_depth')), 'MaxNodeNumber': le(x, n)}
            if v not in over: return ANY
            return some(mk_adt(FK, v, [])) if A.b(over[v]) else none()
        o.append(C.go('%s filters' % nm, C.m(pre + 'Filter', 'apply_filter'), [f, d, n, c], ap))
        PR, SK = C.a(pre + 'Priorities'), C.a(pre + 'StepKind')
        p, s = sym('priorities', PR), sym('step', SK)
        ta = C.a('TraceActionKind', 'core::')
        def pr(A, p, s, PR=PR, SK=SK, nm=nm):
            w = lambda k: C.field(p, PR, k)
            v = A.var(s, SK)
            if v == 'EliminateNoLongerObserved': return mul(w('elim'), T.length(fld(s, SK, v, 0)))
            if v != 'Execute': return ANY
            fe = fld(s, SK, v, 0)
            acts = C.field(fe, N.FE, 'target_actions')
            def count(kind):
                x = fresh()
                return mk_sum(x, acts, ite(as_dt(isvar(C.field(x, C.TA, 'act_kind'), ta, kind)), I(1), I(0)))
            r = add(mul(count('Emission'), w('emission')), mul(count('Reception'), w('reception')))
            r = add(r, mul(w('multi_rdv'), T.length(acts)))
            r = add(r, mul(w('in_loop'), C.field(fe, N.FE, 'max_loop_depth')))
            if nm == 'analysis': r = add(r, mul(w('simu'), T.length(fld(s, SK, v, 2))))
            return r
        o.append(C.go('%s priorities' % nm, C.m(pre + 'Priorities', 'get_priority_of_step'), [p, s], pr))
        df = {'emission': 0, 'reception': 0, 'multi_rdv': 0, 'in_loop': 0}
        if nm == 'analysis': df.update(elim=1, simu=-1)
        o.append(C.go('%s default priorities' % nm, C.m(pre + 'Priorities', 'default'), [], lambda A, PR=PR, df=df: C.struct(PR, **{k: I(x) for k, x in df.items()})))
    return o

GPM = 'graph_process_manager_core::'
GPM_F = {'prios': GPM + 'delegate::priorities::GenericProcessPriorities::<Priorities>::new',
         'delegate': GPM + 'delegate::delegate::GenericProcessDelegate::<Step, Node, Priorities>::new',
         'manager': GPM + 'manager::manager::GenericProcessManager::<Conf>::new',
         'start': GPM + 'manager::manager::GenericProcessManager::<Conf>::start_process'}

@prop('P18')
def p18(C):
    """local analyses"""
    N = ana(C)
    o = []
    el = C.im['eliminate_lifelines']
    dead, data, perf = C.f('is_dead_local_analysis'), C.f('get_local_analysis_starting_data'), C.f('perform_local_analysis')
    LP = C.a('LocalAnalysisLifelineSelectionPolicy')
    g, co, ak, la, por, i, mt = sym('gen_ctx', C.a('GeneralContext')), sym('co_localizations', N.CO), sym('kind', N.AK), sym('locana', N.LA), sym('por', 'bool'), C.i(), sym('multi_trace', '')
    fl = sym('flags', N.MF)
    cell = ('p', 'flags')
    def others(gc, lfs): return T.filter_('set', T.app('range', I(0), T.length(C.field(gc, C.a('GeneralContext'), 'lf_names'))), lambda y: bnot(contains(lfs, y)))
    def localized(gc, lfs, i, tr, cf, f):
        return (C.struct(N.CO, locs_lf_ids=coll('seq', (('one', lfs),))), C.call(el, i, others(gc, lfs)), coll('seq', (('one', tr),)),
                C.struct(N.MF, canals=coll('seq', (('one', cf),)), rem_loop_in_sim=N.f(f, N.MF, 'rem_loop_in_sim'), rem_act_in_sim=N.f(f, N.MF, 'rem_act_in_sim')))
    def sdead(A, gc, co, ak, la, por, i, mt, _):
        cs, locs = N.canals(fl), N.locs(co)
        at = lambda x, s: app('index', s, ('idx', x))
        def done(x): return bnot(lt(N.t(at(x, cs), 'consumed'), T.length(at(x, mt))))
        def selected(x):
            return bor(isvar(N.f(la, N.LA, 'on_lifeline_policy'), LP, 'SelectAll'), le(N.f(la, N.LA, 'modulo_each_X_steps'), N.t(at(x, cs), 'dirty_local_counter')))
        def verdict(x):
            c, i2, m2, f2 = localized(gc, x, i, at(x, mt), at(x, cs), fl)
            return C.call(perf, gc, c, ak, por, N.f(la, N.LA, 'max_look_ahead_depth'), i2, m2, f2, EMPTY)
        def run(x): return band(bnot(done(x)), selected(x))
        def kills(x): return band(run(x), bor(isvar(verdict(x), N.GV, 'Fail'), isvar(verdict(x), N.GV, 'WeakFail')))
        def reset(x):
            c = at(x, cs)
            return C.struct(N.TF, consumed=N.t(c, 'consumed'), no_longer_observed=N.t(c, 'no_longer_observed'), dirty_local_counter=I(0),
                            simulated_before=N.t(c, 'simulated_before'), simulated_after=N.t(c, 'simulated_after'))
        def after(guard):
            x = fresh()
            return C.struct(N.MF, canals=coll('seq', mk_for_over(x, locs, 'seq', gens1t(band(guard(x), run(x)), reset(x), at(x, cs)))),
                            rem_loop_in_sim=N.f(fl, N.MF, 'rem_loop_in_sim'), rem_act_in_sim=N.f(fl, N.MF, 'rem_act_in_sim'))
        if not A.b(N.ex(locs, kills)): return none(), {cell: after(lambda x: TRUE)}
        b = fresh()
        e = T.mk_first(b, locs, kills(b))
        return some(('idx', e)), {cell: after(lambda x: band(lt(('idx', x), ('idx', e)), bnot(kills(x))))}
    o.append(C.go('dead local behaviour', dead, [g, co, ak, la, por, i, mt, ('ref', cell, ())], sdead, mem={cell: fl},
                  more=[perf], same_len=[N.canals(fl), mt, N.locs(co)]))
    cid = sym('canal_id', 'usize')
    def sdata(A, gc, c, co, i, mt, f):
        return tup(*localized(gc, T.index(N.locs(co), c), i, T.index(mt, c), T.index(N.canals(f), c), f))
    o.append(C.go('starting point', data, [g, cid, co, i, mt, fl], sdata))
    md, lg = sym('max_depth', OPT), sym('loggers', '')
    def sperf(A, gc, co, ak, por, md, i, mt, f, lg):
        kind = mk_adt(N.AK, 'Prefix', [])
        if A.var(ak, N.AK) == 'Simulate' and A.b(N.f(fld(ak, N.AK, 'Simulate', 0), N.SC, 'sim_before')): kind = ak
        fs = EMPTY if A.var(md, OPT) == 'None' else coll('seq', (('one', mk_adt(N.F, 'MaxProcessDepth', [fld(md, OPT, 'Some', 0)])),))
        x = fresh()
        ctx = C.struct(N.CX, gen_ctx=gc, co_localizations=co, multi_trace=mt, init_multitrace_length=mk_sum(x, mt, T.length(x)))
        par = C.struct(N.PA, ana_kind=kind, locana=none(), partial_order_reduction=por)
        dflt = C.struct(C.a('AnalysisPriorities'), emission=I(0), reception=I(0), multi_rdv=I(0), in_loop=I(0), elim=I(1), simu=I(-1))
        dele = app(GPM_F['delegate'], mk_adt(C.a('QueueSearchStrategy'), 'HCS', []), app(GPM_F['prios'], dflt, FALSE))
        man = app(GPM_F['manager'], ctx, par, dele, fs, lg, some(N.gv('WeakPass')), TRUE)
        nd = C.struct(N.NK, interaction=i, flags=f, ana_loop_depth=I(0))
        return tfld(app(GPM_F['start'], man, nd), 1)
    o.append(C.go('the analysis that is run', perf, [g, sym('coloc', N.CO), ak, por, md, i, mt, fl, lg], sperf, more=list(GPM_F.values())))
    return o

def gens1t(c, a, b):
    """the element a if c, b otherwise"""
    return T.dt_apply(lambda c, a, b: UNDEF if UNDEF in (c, a, b) else ('gens', (('one', a if c[1] else b),)), as_dt(c), lift(a), lift(b))
