"""Specifications of the limits of simulations, of names and co-localizations, of explorations and of automata."""
from base import *
from specs_core import *
from specs_transfo import T_of, kindfield, as_bag
from specs_ana import ana, opt, sim_reset, GPM_F, gens1t
import resolve
from models import RES
from contract import Infeasible

def walk(f, t):
    """t with f applied to every sub-term, bottom up"""
    r = T.rebuild(t, lambda x: walk(f, x) if isinstance(x, tuple) else x)
    return f(r)

@prop('P19')
def p19(C):
    """limits of simulations"""
    N = ana(C)
    o = []
    cfg, n, i = sym('config', N.SC), sym('multi_trace_len', 'usize'), C.i()
    for w in ('loop', 'act'):
        k = opt(C, 'SimulationConfiguration', 'get_reset_rem_' + w)
        if k: o.append(C.go('budget of simulated %ss' % {'loop': 'loop', 'act': 'action'}[w], k, [cfg, n, i],
                            lambda A, c, n, i, w=w: sim_reset(C, N, A, c, n, i, w, direct=True)))
    p, fe, fl = sym('param', N.PA), sym('frontier_element', N.FE), sym('flags', N.MF)
    def okay(A, p, fe, i, fl):
        k = N.f(p, N.PA, 'ana_kind')
        if A.var(k, N.AK) != 'Simulate': return ANY
        c = fld(k, N.AK, 'Simulate', 0)
        a = bor(isvar(N.f(c, N.SC, 'act_crit'), N.AC, 'None'), lt(I(0), N.f(fl, N.MF, 'rem_act_in_sim')))
        l = bor(isvar(N.f(c, N.SC, 'loop_crit'), N.LC, 'None'), le(N.f(fe, N.FE, 'max_loop_depth'), N.f(fl, N.MF, 'rem_loop_in_sim')))
        return band(a, l)
    o.append(C.go('whether an action may still be simulated', C.m('AnalysisParameterization', 'is_ok_to_simulate'), [p, fe, i, fl], okay, asbool=True))
    k = sym('kind', N.AK)
    sim = lambda: fld(k, N.AK, 'Simulate', 0)
    issim = lambda A: A.var(k, N.AK) == 'Simulate'
    m = lambda n: C.m('AnalysisKind', n)
    o.append(C.go('whether the kind simulates', m('has_simulation'), [k], lambda A, k: B(issim(A)), asbool=True))
    o.append(C.go('whether the kind simulates before the start', m('sim_before'), [k], lambda A, k: N.f(sim(), N.SC, 'sim_before') if issim(A) else FALSE, asbool=True))
    o.append(C.go('configuration of a kind', m('get_sim_config'), [k], lambda A, k: some(sim()) if issim(A) else none()))
    def crits(A, k):
        if not issim(A): return tup(FALSE, FALSE, FALSE)
        lim = lambda f, adt: B(A.var(N.f(sim(), N.SC, f), adt) != 'None')
        return tup(TRUE, lim('loop_crit', N.LC), lim('act_crit', N.AC))
    o.append(C.go('criteria of a kind', m('get_sim_crits'), [k], crits))
    # the first node has its budgets computed from the whole multi-trace and interaction
    return o

@prop('P20')
def p20(C):
    """names and co-localizations"""
    N = ana(C)
    o = []
    GC, ER = C.a('GeneralContext'), C.a('HibouCoreError')
    g, s, n = sym('gen_ctx', GC), sym('name', 'str'), sym('id', 'usize')
    m = lambda n: C.m('GeneralContext', n)
    for k, what, add_, err in (('lf', 'lifelines', 'add_lf', 'UnknownLifeline'), ('ms', 'messages', 'add_msg', 'UnknownMessage'), ('gt', 'gates', 'add_gt', 'UnknownGate')):
        names = C.field(g, GC, k + '_names')
        pos = lambda names: (lambda b: ('idx', T.mk_first(b, names, eq(b, s))))(fresh())
        def get_id(A, g, s, names=names, pos=pos):
            return some(pos(names)) if A.b(contains(names, s)) else none()
        o.append(C.go('identifier of %s' % what, m('get_%s_id' % k), [g, s], get_id))
        def get_name(A, g, i, names=names, err=err):
            if A.b(lt(i, T.length(names))): return mk_adt(RES, 'Ok', [T.index(names, i)])
            return mk_adt(RES, 'Err', [mk_adt(ER, err, [i])])
        o.append(C.go('name of %s' % what, m('get_%s_name' % k), [g, n], get_name))
        cell = ('p', 'self')
        def add(A, _, s, names=names, pos=pos, k=k):
            if A.b(contains(names, s)): return pos(names), {cell: g}
            fs = {f: C.field(g, GC, f) for f in ('lf_names', 'ms_names', 'gt_names')}
            fs[k + '_names'] = coll('seq', T.gens_of(names, 'seq') + (('one', s),))
            return T.length(names), {cell: C.struct(GC, **fs)}
        o.append(C.go('declaration of %s' % what, m(add_), [('ref', cell, ()), s], add, mem={cell: g}))
    o.append(C.go('number of lifelines', m('get_lf_num'), [g], lambda A, g: T.length(C.field(g, GC, 'lf_names'))))
    o.append(C.go('number of messages', m('get_ms_num'), [g], lambda A, g: T.length(C.field(g, GC, 'ms_names'))))
    o.append(C.go('all lifelines', m('get_all_lfs_ids'), [g], lambda A, g: T.app('range', I(0), T.length(C.field(g, GC, 'lf_names')))))
    # co-localizations
    co, lf, lfs, ids = sym('co_localizations', N.CO), sym('lifeline', 'usize'), sym('lifelines', 'set'), sym('ids', 'set')
    locs = N.locs(co)
    m = lambda n: C.m('CoLocalizations', n)
    at = lambda lf: (lambda b: T.mk_first(b, locs, contains(b, lf)))(fresh())
    o.append(C.go('co-localization of a lifeline', m('get_lf_coloc_id'), [co, lf],
                  lambda A, c, l: some(('idx', at(l))) if A.b(N.ex(locs, lambda x: contains(x, l))) else none()))
    o.append(C.go('co-localizations of lifelines', N.coloc_ids, [co, lfs],
                  lambda A, c, l: fm('set', l, lambda x: TRUE, lambda x: ('idx', at(x)))))
    def lfids(A, c, ids):
        x, y = fresh(), fresh()
        return set_norm(coll('set', mk_for_over(x, ids, 'set', as_dtg(mk_for_over(y, T.index(locs, x), 'set', as_dtg((('one', y),)))))))
    o.append(C.go('lifelines of co-localizations', N.lf_ids, [co, ids], lfids))
    o.append(C.go('lifelines of a co-localization', m('get_coloc_lfs_ids'), [co, n], lambda A, c, n: T.index(locs, n)))
    o.append(C.go('number of co-localizations', m('num_colocs'), [co], lambda A, c: T.length(locs)))
    o.append(C.go('single-lifeline co-localizations', m('are_colocalizations_singletons'), [co], lambda A, c: N.singletons(c), asbool=True))
    k = sym('lf_num', 'usize')
    rng = T.app('range', I(0), k)
    o.append(C.go('trivial partition', m('get_trivial_partition'), [k], lambda A, k: C.struct(N.CO, locs_lf_ids=coll('seq', (('one', rng),)))))
    o.append(C.go('discrete partition', m('get_discrete_partition'), [k],
                  lambda A, k: C.struct(N.CO, locs_lf_ids=fm('seq', rng, lambda x: TRUE, lambda x: coll('set', (('one', x),))))))
    return o

def as_dtg(g): return ('gens', tuple(g)) if not (isinstance(g, tuple) and g and g[0] == 'gens') else g

@prop('P21')
def p21(C):
    """exploration of executions"""
    N = ana(C)
    o = []
    CX, PA, NK, SK = [C.a('Exploration' + n) for n in ('Context', 'Parameterization', 'NodeKind', 'StepKind')]
    LV, GV, FC = [C.a('Exploration' + n) for n in ('LocalVerdict', 'GlobalVerdict', 'FilterCriterion')]
    H = lambda n: C.m('ExplorationProcessHandler', n)
    ctx, par, nk = sym('context', CX), sym('param', PA), sym('node', NK)
    exe = C.need(C.fr, 'execute_interaction')
    inter, depth = (lambda n: C.field(n, NK, 'interaction')), (lambda n: C.field(n, NK, 'loop_depth'))
    step = H('process_new_step'); b = C.P.bodies[step]
    def proc(A, c, p, ps, sp, a, b_):
        n, s = kindfield(C, ps, b, 3), kindfield(C, sp, b, 4)
        if A.var(s, SK) != 'Execute': return ANY
        fe = fld(s, SK, 'Execute', 0)
        E = C.exe(inter(n), N.f(fe, N.FE, 'position'), N.f(fe, N.FE, 'target_lf_ids'), FALSE)
        return C.struct(NK, interaction=N.f(E, N.ER, 'interaction'), loop_depth=add(depth(n), N.f(fe, N.FE, 'max_loop_depth')))
    o.append(C.go('successor node', step, [ctx, par, sym('parent', T_of(b, 3)), sym('step', T_of(b, 4)), sym('id', 'u32'), sym('cnt', 'u32')], proc, more=[exe]))
    crit = H('get_criterion'); b2 = C.P.bodies[crit]
    def cri(A, c, p, ps, sp, a, b_):
        n, s = kindfield(C, ps, b2, 3), kindfield(C, sp, b2, 4)
        if A.var(s, SK) != 'Execute': return ANY
        return C.struct(FC, loop_depth=add(depth(n), N.f(fld(s, SK, 'Execute', 0), N.FE, 'max_loop_depth')))
    o.append(C.go('quantity compared with the filters', crit, [ctx, par, sym('parent', T_of(b2, 3)), sym('step', T_of(b2, 4)), sym('id', 'u32'), sym('cnt', 'u32')], cri))
    gf = C.f('global_frontier', 'core::')
    def nxt(A, c, p, n):
        # in the order in which they are popped
        return fm('seq', T.mk_app('rev', (C.call(gf, inter(n), TRUE),)), lambda x: TRUE, lambda x: mk_adt(SK, 'Execute', [x]))
    o.append(C.go('next steps', H('collect_next_steps'), [ctx, par, nk], nxt, more=[gf], observe=lambda t: as_bag(t)))
    lv = lambda v: mk_adt(LV, v, [])
    term = lambda n: C.im_('express_empty', inter(n))
    o.append(C.go('verdict of a terminal node', H('get_local_verdict_when_no_child'), [ctx, par, nk],
                  lambda A, c, p, n: lv('Accepting' if A.b(term(n)) else 'DeadLocked')))
    cell = ('p', 'node')
    def obs(t):
        return some(t[3][0][1][0]) if t[0] == 'adt' and t[2] == 'Some' and t[3][0][0] == 'tup' else t
    o.append(C.go('verdict of any node', H('get_local_verdict_from_static_analysis'), [ctx, par, ('ref', cell, ())],
                  lambda A, c, p, _: some(lv('Accepting')) if A.b(term(nk)) else none(), mem={cell: nk}, observe=obs))
    l = sym('verdict', LV)
    o.append(C.go('accepting nodes are explored further', H('pursue_process_after_static_verdict'), [ctx, par, l],
                  lambda A, c, p, l: TRUE if A.var(l, LV) == 'Accepting' else ANY, asbool=True))
    g = sym('global', GV)
    m = lambda n: C.m('ExplorationGlobalVerdict', n)
    gv = lambda v: mk_adt(GV, v, [])
    o.append(C.go('dead-locks are absorbing', m('update_with_local_verdict'), [g, l],
                  lambda A, g, l: gv('HasDeadLocks') if A.var(g, GV) == 'HasDeadLocks' or A.var(l, LV) == 'DeadLocked' else gv('FoundNoDeadLocks')))
    o.append(C.go('initial verdict', m('get_baseline_verdict'), [], lambda A: gv('FoundNoDeadLocks')))
    o.append(C.go('no goal stops an exploration', m('is_goal_reached'), [g, sym('goal', OPT)], lambda A, g, t: FALSE, asbool=True))
    o.append(C.go('filtered nodes keep the verdict', m('update_knowing_nodes_were_filtered_out'), [g, sym('filtered', 'bool')], lambda A, g, f: g))
    return o

AUT = 'autour_core::nfa::'
AN = AUT + 'nfa::AutNFA'
def aut_fn(C, name):
    """operations on automata of the library"""
    ks = sorted({k for b in C.P.bodies.values() for k in calls(b) if k.startswith(AUT) and k.endswith('::' + name)})
    if not ks: raise resolve.Missing('operation %s on automata' % name)
    return ks[0]

def ext_fn(C, suffix):
    ks = sorted({k for b in C.P.bodies.values() for k in calls(b) if k.endswith(suffix)})
    if not ks: raise resolve.Missing('function ' + suffix)
    return ks[0]

def calls(b):
    for bb in b['blocks']:
        if bb is None: continue
        t = bb[1]
        if t[0] == 'call' and t[2][0] == 'k':
            k = t[2][1].get('res') or t[2][1].get('fn')
            if k: yield k

@prop('P22')
def p22(C):
    """translation to automata"""
    N = ana(C)
    o = []
    TA, TAK = C.TA, C.a('TraceActionKind', 'core::')
    GC = C.a('GeneralContext')
    g, i, al = sym('gen_ctx', GC), C.i(), sym('alphabet', '')
    # letters
    lf, ms = fresh(), fresh()
    def alpha(A, g):
        lfs, mss = C.field(g, GC, 'lf_names'), C.field(g, GC, 'ms_names')
        lf, ms = fresh(), fresh()
        act = lambda k: coll('set', (('one', C.struct(TA, lf_id=('idx', lf), act_kind=mk_adt(TAK, k, []), ms_id=('idx', ms))),))
        inner = ('gens', (('one', act('Emission')), ('one', act('Reception'))))
        return coll('seq', mk_for_over(lf, lfs, 'seq', ('gens', T.mk_for_over(ms, mss, 'seq', inner))))
    o.append(C.go('letters of a signature', C.f('get_alphabet_from_gen_ctx'), [g], alpha))
    PR, SK, NK = C.a('ActionNFAITPrinter'), C.a('ExplorationStepKind'), C.a('ExplorationNodeKind')
    pr, st, nk = sym('letters', PR), sym('step', SK), sym('node', NK)
    m = lambda n: C.m('ActionNFAITPrinter', n)
    cell = ('p', 'self')
    def letter(A, _, c, p, s):
        if A.var(s, SK) != 'Execute': return ANY
        acts = N.f(fld(s, SK, 'Execute', 0), N.FE, 'target_actions')
        known = C.field(pr, PR, 'index_to_action_map')
        if A.b(contains(known, acts)):
            b = fresh(); return some(('idx', T.mk_first(b, known, eq(b, acts)))), {cell: pr}
        return some(T.length(known)), {cell: C.struct(PR, index_to_action_map=coll('seq', T.gens_of(known, 'seq') + (('one', acts),)), gen_ctx=C.field(pr, PR, 'gen_ctx'))}
    cx, pa = sym('context', ''), sym('param', '')
    o.append(C.go('letter of a transition', m('step_into_letter'), [('ref', cell, ()), cx, pa, st], letter, mem={cell: pr}))
    o.append(C.go('final states', m('is_node_final'), [pr, cx, pa, nk], lambda A, p, c, q, n: C.im_('express_empty', C.field(n, NK, 'interaction')), asbool=True))
    # the exploration that builds the automaton
    expl = C.f('get_nfa_and_letters_from_interaction_exploration')
    only = C.f('interaction_has_only_strict_and_seq')
    def sonly(A, i):
        v = A.var(i, C.INT); f = C.fields(i, v)
        if v in ('Emission', 'Reception', 'Empty'): return TRUE
        if v in ('Strict', 'Seq'): return band(C.call(only, f[0]), C.call(only, f[1]))
        return FALSE
    o.append(C.go('interactions translated by exploration', only, [i], sonly, asbool=True))
    try: rec = C.f('get_nfa_from_interaction_via_composition_rec')
    except resolve.Missing: rec = None
    if rec:
        ops = {n: aut_fn(C, n) for n in ('unite', 'interleave', 'concatenate', 'kleene', 'trim')}
        cell2 = ('p', 'alphabet')
        def strip(A, t):
            return walk(lambda x: x[2][0] if isinstance(x, tuple) and x[:2] == ('app', ops['trim']) else x, t)
        def comp(A, g, i, _):
            v = A.var(i, C.INT); f = C.fields(i, v)
            def explored():
                r = C.call(expl, g, i, al)
                return tfld(r, 0), {cell2: tfld(r, 1)}
            basic = A.b(C.call(only, i))
            if not basic and v in ('Empty', 'Emission', 'Reception'): raise Infeasible()   # by the contract of the predicate
            if basic or v == 'Seq': return explored()
            one = lambda x, al: (C.call(rec, g, x, al), T.mk_app(rec + '!2', (g, x, al)))
            if v == 'Loop':
                if A.var(f[0], C.LK) != 'SStrictSeq': return ANY
                n, a = one(f[1], al)
                return C.call(ops['kleene'], n), {cell2: a}
            if v not in ('Alt', 'Par', 'Strict'): return ANY
            n1, a1 = one(f[0], al); n2, a2 = one(f[1], a1)
            n1 = T.app('setfield', n1, I(0), fld(n2, AN, 'AutNFA', 0))   # both over the letters met in either
            r = C.call(ops[{'Alt': 'unite', 'Par': 'interleave', 'Strict': 'concatenate'}[v]], n1, n2)
            return fld(r, RES, 'Ok', 0), {cell2: a2}
        o.append(C.go('compositional translation', rec, [g, i, ('ref', cell2, ())], comp, mem={cell2: al}, more=[only, expl] + list(ops.values()), canon=strip))
    newlog = ext_fn(C, 'GenericNFAITLogger::<Conf, Letter, BP>::new')
    start = GPM_F['start']
    F = C.a('ExplorationFilter')
    def sub(t, p, acc):
        if isinstance(t, tuple):
            if t and p(t): acc.append(t)
            for x in t: sub(x, p, acc)
        return acc
    def run_of(t):
        """what is explored and how: (interaction, depth, filters, goal, memoization, initial letters), and the declared alphabet"""
        if t[0] != 'tup' or len(t[1]) != 3 or t[1][0][:2] != ('app', 'setfield'): return t
        runs = set(sub(t, lambda x: x[0] == 'app' and x[1].startswith(start), []))
        if len(runs) != 1: return t
        man, node = list(runs)[0][2][:2]
        if man[:2] != ('app', GPM_F['manager']): return t
        logs = set(sub(man, lambda x: x[:2] == ('app', newlog), []))
        if len(logs) != 1: return t
        letters = t[1][1]
        pr = list(logs)[0][2][0]
        # the letters are those of the printer when the exploration is over
        ok = letters[0] == 'fld' and letters[2] == PR and t[1][0][2][2] == T.app('range', I(0), T.length(letters)) and t[1][0][2][1] == I(0) and bool(sub(t[1][0][2][0], lambda x: x[0] == 'app' and x[1].endswith('::to_nfa'), []))
        return tup(node, man[2][3], man[2][5], man[2][6], pr, B(ok))
    def sexpl(A, g, i, al):
        return tup(C.struct(NK, interaction=i, loop_depth=I(0)),
                   coll('seq', (('one', mk_adt(F, 'MaxLoopInstanciation', [mul(I(2), C.im_('total_loop_num', i))])),)), none(), TRUE,
                   C.struct(PR, index_to_action_map=al, gen_ctx=g), TRUE)
    o.append(C.go('exploration that builds the automaton', expl, [g, i, al], sexpl, observe=run_of,
                  more=[k for k in calls(C.P.bodies[expl]) if k.startswith(('graph_process', 'autour', '<(dyn std::any'))]))
    return o
