"""The commands: which files and options they take, what they run on them and what they report."""
import re
import os
import time
import engine
import models
import resolve
import facts
from base import *
from specs_io import ext, path_hooks, RES, OPTION
from terms import *
from contract import Result
import terms as T

def declared():
    """{command: {argument: (takes a value, required)}} of the declaration of the command line"""
    out, cmd, arg = {}, None, None
    ind = {}
    for l in open(os.path.join(facts.REPO, 'src/ui/hibou_cli.yml')):
        if not l.strip() or l.strip().startswith('#'): continue
        n = len(l) - len(l.lstrip())
        s = l.strip()
        m = re.fullmatch(r'-\s*(\w+):', s)
        if m:
            if 'cmd' not in ind: ind['cmd'] = n
            if n == ind['cmd']: cmd = m.group(1); out[cmd] = {}
            else: arg = m.group(1); out[cmd][arg] = {}
        elif cmd and arg and ':' in s and n > ind['cmd'] + 4:
            k, v = [x.strip() for x in s.split(':', 1)]
            if arg in out[cmd]: out[cmd][arg][k] = v
    declared.raw = out
    return {c: {a: ('index' in o or o.get('takes_value') == 'true', o.get('required') == 'true') for a, o in args.items()} for c, args in out.items()}

# what is written on the command line: the arguments in their order ('?' when it can be left out), the letters of the options ('=' when a value follows)
USAGE = {
    'draw': 'hsf hif -o=output -r=representation', 'puml_sd': 'hsf hif', 'puml_ap': 'hsf hif', 'canonize': 'hsf hif hcf?', 'get_metrics': 'hsf hif kind', 'explore': 'hsf hif hcf?',
    'analyze': 'hsf hif htf hcf?', 'nfa_analyze': 'hsf hif htf -t:draw_transformation -a:draw_analysis', 'slice': 'hsf htf -p=parent_folder -k=kind -r=random -w:wide -n=name',
    'mutate_remove_actions': 'hsf htf -n=name -p=parent_folder -m=max_num_removes', 'mutate_insert_noise': 'hsf htf -n=name -p=parent_folder -u:one_per_compo_max -e:only_at_end -m=max_num_inserts',
    'mutate_swap_actions': 'hsf htf -n=name -p=parent_folder -m=max_num_swap', 'mutate_swap_components': 'hsf htf1 htf2 -n=name -p=parent_folder -m=max_num_swap',
    'rng_gen_interactions': 'hsf -f=folder -i=num_ints -n=num_tries -p=probas -d=max_depth -x=min_symbols -s=seed', 'glosem': 'hsf hif -l=loop_depth'}

def usage():
    """the command line is declared as it is written"""
    def run():
        r = Result('command line'); t0 = time.time()
        r.fn = r.where = 'src/ui/hibou_cli.yml'
        cmds = declared(); raw = declared.raw
        for c, text in USAGE.items():
            pos, ops = [], {}
            for w in text.split():
                if w[0] != '-': pos.append((w.rstrip('?'), not w.endswith('?')))
                else: ops[w[1]] = (w[3:], w[2] == '=')
            r.outcomes += 1
            if c not in cmds: r.violations.append('%s: the command %s is not declared' % (r.fn, c)); continue
            got = sorted(((int(o['index']), n) for n, o in raw[c].items() if 'index' in o))
            r.leaves += len(raw[c])
            if [(n, cmds[c][n][1]) for _, n in got] != pos: r.violations.append('%s: %s takes the arguments %s instead of %s' % (r.fn, c, ' '.join(n for _, n in got), ' '.join(n for n, _ in pos)))
            for l, (n, v) in ops.items():
                o = raw[c].get(n)
                if o is None or o.get('short') != l or cmds[c][n] != (v, False): r.violations.append('%s: option -%s of %s is not its option %s%s' % (r.fn, l, c, n, ', followed by a value' if v else ''))
        r.wall = time.time() - t0
        return r
    return Obl('command line', run)


def asked(C, key, seen):
    """names of arguments that the function asks for, itself or in the functions of the program that it calls with constants"""
    if key in seen or key not in C.P.bodies: return []
    seen.add(key)
    out = []
    b = C.P.bodies[key]
    for blk in b['blocks']:
        if not blk or blk[1][0] != 'call' or blk[1][2][0] != 'k': continue
        i = blk[1][2][1]
        k = i.get('res') or i.get('fn') or ''
        if 'ArgMatches' in k and k.split('::')[-1] in ('value_of', 'is_present', 'values_of', 'value_of_lossy', 'occurrences_of'):
            for o in blk[1][3]:
                if o[0] == 'k' and isinstance(o[1], dict) and 'str' in o[1]: out.append((o[1]['str'], b))
    return out

def arguments(C):
    """no command asks for an argument that it does not have: that stops the program"""
    def run():
        r = Result('declared arguments'); t0 = time.time()
        r.fn = r.where = 'src/ui/hibou_cli.yml'
        cmds = declared()
        for cmd, fn in RUNS.items():
            if cmd not in cmds: r.violations.append('%s: the command %s is not declared' % (r.fn, cmd)); continue
            for n, b in asked(C, C.f(fn), set()):
                r.outcomes += 1; r.leaves += 1
                if n not in cmds[cmd]: r.violations.append('%s: asks for argument %s, which is not declared for %s' % (fn, n, cmd))
        r.wall = time.time() - t0
        return r
    return Obl('declared arguments', run)


M = sym('matches', 'clap::ArgMatches')
ARG = lambda n: app('argument', ('str', n))

def arg_hooks(C, args):
    """the arguments of the command, as they are declared"""
    def name(eng, st, a):
        t = eng.deep(st, a)
        if t[0] != 'str': raise engine.GiveUp('name of an argument')
        return t[1]
    def value(eng, st, info, a):
        n = name(eng, st, a[1])
        if n not in args: return [('panic', 'the command has no argument ' + n, st)]
        takes, req = args[n]
        if not takes: return [('ret', none(), st)]
        return [('ret', some(ARG(n)) if req else app('argument?', ('str', n)), st)]
    def present(eng, st, info, a):
        n = name(eng, st, a[1])
        if n not in args: return [('panic', 'the command has no argument ' + n, st)]
        takes, req = args[n]
        if req: return [('ret', TRUE, st)]
        if not takes: return [('ret', app('flag', ('str', n)), st)]
        return [('ret', B(v == 'Some'), s) for v, s in models.variants(eng, st, app('argument?', ('str', n)), OPTION)]
    h = {ext(C, 'ArgMatches', 'value_of'): value}
    try: h[ext(C, 'ArgMatches', 'is_present')] = present
    except resolve.Missing: pass
    return h

def opt(A, n):
    """the text given for an argument that may be missing"""
    v = app('argument?', ('str', n))
    return fld(v, OPTION, 'Some', 0) if A.var(v, OPTION) == 'Some' else None
def flag(A, n): return A.b(app('flag', ('str', n)))

class Failed(Exception): pass

def tmap(t, f):
    if not isinstance(t, tuple): return t
    return f(tuple(tmap(c, f) for c in t))

def says(t, names):
    if not isinstance(t, tuple): return False
    if t and t[0] == 'app' and any(n in str(t[1]) for n in names): return True
    return any(says(c, names) for c in t)

CLOCK = ('time::Instant', 'time::Duration', 'time::SystemTime')
ROUNDS = 'rounds'

class Cli:
    def __init__(self, C):
        self.C = C
        self.cmds = declared()
        self.err = C.R.tm('HibouParsingError', 'Display', 'fmt')
        f = C.f
        self.readers = [f('parse_hsf_file'), f('parse_hif_file'), f('parse_htf_file')]
        self.verdict = []
    # ---- what is read
    def okay(self, A, r):
        """what was read; nothing goes on without it"""
        if A.var(r, RES) != 'Ok': raise Failed(r)
        return fld(r, RES, 'Ok', 0)
    def hsf(self, A): return self.okay(A, app(self.readers[0], ARG('hsf')))
    def hif(self, A, ctx): return self.okay(A, app(self.readers[1], ctx, ARG('hif')))
    def htf(self, A, ctx, n='htf'):
        r = self.okay(A, app(self.readers[2], ctx, ARG(n)))
        return fld(r, 'tuple', None, 0), fld(r, 'tuple', None, 1)
    def hcf(self, A, ctx, reader, default):
        """the options of the configuration file, if there is one"""
        p = opt(A, 'hcf')
        return app(default) if p is None else self.okay(A, app(reader, ctx, p))
    def number(self, A, n, default, what='number'):
        """the number given for an option"""
        p = opt(A, n)
        if p is None: return I(default)
        r = app(what, p)
        if A.var(r, RES) != 'Ok': raise Failed(r)
        return fld(r, RES, 'Ok', 0)
    # ---- reports
    def go(self, cid, cmd, fn, spec, more=(), hooks=None, events=(), mem=None):
        """spec(A) -> (values that the report mentions, things done); Failed when something cannot be read: then that is reported, and nothing is done"""
        C = self.C
        if cmd not in self.cmds: raise resolve.Missing('command %s' % cmd)
        h = arg_hooks(C, self.cmds[cmd]); h.update(path_hooks()); h.update(hooks or {})
        h['core::str::<impl str>::parse'] = lambda eng, st, info, a: [('ret', app('number', self.norm(eng.deep(st, a[0]))), st)]
        h['core::str::<impl str>::chars'] = lambda eng, st, info, a: [('ret', eng.deep(st, a[0]), st)]
        for k in ('core::char::methods::<impl char>::is_whitespace', 'std::char::methods::<impl char>::is_whitespace', 'std::char::is_whitespace'):
            h[k] = lambda eng, st, info, a: [('ret', app('blank', eng.deep(st, a[0])), st)]
        for k, sel in dict(events).items():
            def ev(eng, st, info, a, k=k, sel=sel):
                a = [eng.deep(st, x) for x in a]
                return [('ret', app(k, *a) if sel else UNIT, models.event(st, k, *a))]
            h[k] = ev
        mem = {models.FILES: empty('seq')} if events else {}
        def line(v): return ('one', coll('seq', (('spread', v),)))
        def sp(A, m):
            code, done = 0, ()
            try:
                out = spec(A)
                rep, done = out[0], out[1] if len(out) > 1 else ()
                if len(out) > 2: code = out[2]
            except Failed as e:
                rep, code = [app('show', fld(e.args[0], RES, 'Err', 0))], 1
            fin = {models.FILES: coll('seq', tuple(('one', ('tup', (('str', d[0]),) + tuple(d[1:]))) for d in done))} if events else {}
            return ('tup', (coll('seq', tuple(line(v) for v in rep)), I(code))), fin
        return C.go(cid, C.f(fn), [M], sp, more=set(more) | {self.err} | set(self.readers), hooks=h, mem=mem or None, panics='all', canon=self.canon, same=self.same)
    def norm(self, t):
        """texts up to the spaces around or inside them"""
        def f(t):
            if t and t[0] == 'app' and len(t) == 3 and isinstance(t[1], str) and t[1].split('::')[-1] in ('trim', 'trim_start', 'trim_end') and len(t[2]) == 1: return t[2][0]
            if t and t[0] == 'coll' and len(t) == 3 and len(t[2]) == 1 and t[2][0][0] == 'for' and says(t[2][0][3], ('blank',)): return t[2][0][2]
            return t
        return tmap(t, f)
    def canon(self, A, t):
        t = self.norm(t)
        if t[0] == 'tup' and len(t[1]) == 2 and t[1][1][0] == 'int' and t[1][0][0] == 'coll':
            parts = []
            for g in t[1][0][2]:
                for p in (gens_of(g[1], 'seq') if g[0] == 'one' and g[1][0] != 'str' else (g,)):
                    if p[0] == 'for' and says(p[3], ('blank',)): p = ('spread', p[2])
                    x = p[1]
                    if p[0] not in ('one', 'spread'): parts.append(p); continue
                    if x[0] == 'str' or says(x, CLOCK): continue
                    while x[0] == 'app' and x[1] in ('show', 'debug', 'fmt'): x = x[2][0]
                    parts.append(('one', coll('seq', (('spread', x),))))
            return ('tup', (coll('seq', tuple(parts)), t[1][1]))
        return t
    def same(self, A, got, want):
        # several things may fail to be read: the report is about one of them
        if got[0] == 'tup' and want[0] == 'tup' and got[1][1] == want[1][1] == I(1) and len(got[1][0][2]) == 1:
            e = got[1][0][2][0][1]
            e = e[2][0][1] if e[0] == 'coll' and len(e[2]) == 1 else e
            if e[0] == 'fld' and e[2] == RES and e[3] == 'Err' and A.pc.known(('disc', e[1], RES)) == ('Err',): return True
        return False


def solid(x):
    """a text without its spaces"""
    return fm('seq', x, lambda c: bnot(app('blank', c)), lambda c: c)

def extn(C, suffix):
    """key of a function of another crate"""
    found = set()
    for b in C.P.bodies.values():
        for bb in b['blocks']:
            if bb and bb[1][0] == 'call' and bb[1][2][0] == 'k':
                i = bb[1][2][1]
                for k in (i.get('res'), i.get('fn')):
                    if k and k.endswith(suffix): found.add(i.get('res') or i['fn'])
    if not found: raise resolve.Missing(suffix)
    return sorted(found)[0]

def nfa_analyze(C, K, alp):
    """analysis of a global trace with the automaton of the interaction"""
    a, f, m = C.a, C.f, C.m
    MG, DG = 'GenericProcessManager', 'GenericProcessDelegate'
    new, start, dele = ext(C, MG, 'new'), ext(C, MG, 'start_process'), ext(C, DG, 'new')
    gen, mtl, dr = f('get_nfa_and_letters_from_interaction_exploration'), f('multi_trace_length'), f('draw_interaction')
    PA, DW, GL = 'NfaWordAnalysisParameterization', 'NfaWordAnalysisProcessDrawer', 'GenericGraphVizLogger'
    pnew, pini, wctx, prio, dnew, gnew = ext(C, PA, 'new'), ext(C, PA, 'make_init_node'), ext(C, 'NfaWordAnalysisContext', 'new'), ext(C, 'GenericProcessPriorities', 'new'), ext(C, DW, 'new'), ext(C, GL, 'new')
    c = lambda n, v, *fs: mk_adt(a(n), v, list(fs))
    def spec(A):
        ctx = K.hsf(A); i = K.hif(A, ctx); co, mt = K.htf(A, ctx)
        if not A.b(eq(T.length(C.field(co, a('CoLocalizations'), 'locs_lf_ids')), I(1))): return [], (), 1
        got = app(gen, ctx, i, app(alp, ctx))
        nfa, letters = fld(got, 'tuple', None, 0), fld(got, 'tuple', None, 1)
        stem_ = app('stem', ARG('hif'))
        done = ()
        if flag(A, 'draw_transformation'):
            done = ((dr, ctx, i, mk_adt(a('InteractionGraphicalRepresentation'), 'AsSequenceDiagram', []), ('str', '.'), ('str', '.'), coll('seq', (('spread', stem_), ('spread', ('str', '_int'))))),)
        logs = coll('seq', ())
        if flag(A, 'draw_analysis'):
            logs = coll('seq', (('one', app(gnew, app(dnew, ('str', 'temp')), c('GraphVizOutputFormat', 'svg'), c('GraphVizProcessLoggerLayout', 'Vertical'), TRUE, ('str', '.'), coll('seq', (('spread', ('str', 'ana_')), ('spread', stem_))))),))
        # every event of the trace is read as the letter it is, or as one letter that the automaton does not know
        def letter(x):
            b = fresh()
            return T.ite(T.contains(letters, x), ('idx', T.mk_first(b, letters, eq(b, x))), T.length(letters))
        word = fm('seq', T.app('index', mt, I(0)), lambda x: TRUE, letter)
        par = app(pnew, c('NfaWordAnalysisResetOn', 'Initials'), c('NfaWordAnalysisPolicy', 'StopAtDeviation'))
        pr = C.struct(a('ActionNFAITPrinter'), index_to_action_map=letters, gen_ctx=ctx)
        mg = app(new, app(wctx, nfa, pr, word), par, app(dele, c('QueueSearchStrategy', 'BFS'), app(prio, mk_adt('autour_process::autana::priorities::NfaWordAnalysisPriorities', 'NfaWordAnalysisPriorities', []), FALSE)), coll('seq', ()), logs, none(), FALSE)
        r = app(start, mg, app(pini, par, nfa))
        return [ARG('hif'), ARG('htf'), app(mtl, mt), fld(r, 'tuple', None, 1)], done
    return K.go('nfa_analyze', 'nfa_analyze', 'cli_nfa_ana', spec, more=[gen, mtl, alp, new, start, dele, pnew, pini, wctx, prio, dnew, gnew], events={dr: None})

RUNS = {'draw': 'cli_draw', 'puml_sd': 'cli_puml_sd', 'puml_ap': 'cli_puml_ap', 'glosem': 'cli_glosem', 'nfa_experiment': 'cli_nfa_experiment', 'nfa_experiment2': 'cli_nfa_experiment2',
        'rng_gen_interactions': 'cli_rng_gen_interactions', 'get_metrics': 'cli_get_metrics', 'nfa_analyze': 'cli_nfa_ana', 'explore': 'cli_explore', 'canonize': 'cli_canonize', 'analyze': 'cli_analyze',
        'slice': 'cli_slice', 'mutate_insert_noise': 'cli_mutate_insert_noise', 'mutate_remove_actions': 'cli_mutate_remove_actions', 'mutate_swap_actions': 'cli_mutate_swap_actions',
        'mutate_swap_components': 'cli_mutate_swap_components'}

def dispatch(C, K):
    """every declared command runs its own function on its own arguments, and what it reports is printed"""
    show = C.f('print_on_hibou_cli')
    fns = {c: C.f(f) for c, f in RUNS.items()}
    asked = lambda n: app('command', ('str', n))
    sure = lambda pc, n: pc.known(('b', asked(n))) == (True,)
    used = lambda n: sym('arguments of ' + n, 'clap::ArgMatches')
    def name(eng, st, a):
        t = eng.deep(st, a)
        if t[0] != 'str': raise engine.GiveUp('name of a command')
        return t[1]
    def which(eng, st, info, a):
        n = name(eng, st, a[1])
        if n not in K.cmds: return [('ret', none(), st)]      # (clap answers that it was not asked for)
        if any(sure(st.pc, c) for c in K.cmds if c != n): return [('ret', none(), st)]
        return [('ret', some(used(n)) if b else none(), s) for b, s in models.split_bool(eng, st, asked(n))]
    def sub(eng, st, info, a): raise engine.GiveUp('subcommand')
    h = {ext(C, 'ArgMatches', 'subcommand_matches'): which}
    # the declaration of the commands is part of the program: it loads
    h[ext(C, 'YamlLoader', 'load_from_str')] = lambda eng, st, info, a: [('ret', mk_adt(RES, 'Ok', [sym('declaration', '')]), st)]
    h[show] = lambda eng, st, info, a: [('ret', UNIT, models.event(st, show, eng.deep(st, a[0])))]
    def spec(A, m=None):
        hit = [c for c in K.cmds if sure(A.pc, c)] or list(next(((c,) for c in K.cmds if A.b(asked(c))), ()))
        if not hit: return ANY, {models.FILES: ANY}
        c = hit[0]
        if c not in fns: return ANY, {models.FILES: ('str', 'what the command %s reports' % c)}
        return ANY, {models.FILES: coll('seq', (('one', ('tup', (('str', show), fld(app(fns[c], used(c)), 'tuple', None, 0)))),))}
    run = C.f('hibou_cli')
    start = C.go('start', 'crate::main', [], lambda A: (ANY, {models.FILES: coll('seq', (('one', ('tup', (('str', run),))),))}),
                 hooks={run: lambda eng, st, info, a: [('ret', UNIT, models.event(st, run))]}, mem={models.FILES: empty('seq')}, panics='explicit', same=lambda A, g, w: w == ANY)
    return [start, C.go('dispatch', run, [], spec, more=list(fns.values()), hooks=h, mem={models.FILES: empty('seq')}, panics='explicit', same=lambda A, g, w: w == ANY)]

def printing(C):
    """every line of a report is printed, in its order"""
    out = ('g', 'stdout')
    def canon(A, t):
        if t[0] != 'coll': return t
        parts = [p for g in t[2] for p in (gens_of(g[1], 'seq') if g[0] == 'one' and g[1][0] != 'sym' else (g,)) if p[1][0] != 'str']
        return coll('seq', tuple(('one', p[1]) for p in parts))
    o = []
    for n in range(13):
        lines = [sym('line %d' % k, 'str') for k in range(n)]
        o.append(C.go('printed report of %d lines' % n, C.f('print_on_hibou_cli'), [coll('seq', tuple(('one', l) for l in lines))],
                      lambda A, *a, lines=lines: (UNIT, {out: coll('seq', tuple(('one', l) for l in lines))}), mem={out: empty('seq')}, canon=canon, panics='all'))
    return o

def verdicts(C):
    """the verdict is reported by its name"""
    AV = C.a('AnalysisGlobalVerdict')
    v, f = sym('verdict', AV), sym('written', 'std::fmt::Formatter')
    F = ('p', 'f')
    def spec(A, *a): return ANY, {F: coll('seq', (('spread', f), ('spread', ('str', A.var(v, AV)))))}
    def canon(A, t):
        # what follows the name, in the same text, is free
        if t[0] != 'coll' or not t[2] or t[2][0] != ('spread', f): return t
        text = ''
        for g in t[2][1:]:
            if g[1][0] != 'str': break
            text += g[1][1]
        return ('str', (text.split() or [''])[0])
    return C.go('name of the verdict', C.R.tm('AnalysisGlobalVerdict', 'Display', 'fmt'), [v, ('ref', F, ())], spec, mem={F: f}, canon=canon, same=lambda A, g, w: w == ANY)

@prop('P32')
def p32(C):
    """commands"""
    K = Cli(C)
    o = []
    a, f, m = C.a, C.f, C.m
    MG, DG = 'GenericProcessManager', 'GenericProcessDelegate'
    new, start, dele = ext(C, MG, 'new'), ext(C, MG, 'start_process'), ext(C, DG, 'new')
    def options(ty, default_of=None):
        t = a(ty)
        return t, m(ty, 'default'), (lambda x, n: C.field(x, t, n))
    out = lambda r, k: fld(r, 'tuple', None, k)
    # ---------------------------------------------------------------- analyze
    tA, dA, fA = options('HibouAnalyzeOptions')
    rA = f('parse_hcf_file_for_ana')
    mtl, ncol, init = f('multi_trace_length'), m('CoLocalizations', 'num_colocs'), m('MultiTraceAnalysisFlags', 'new_init')
    lo, ac = m('SimulationConfiguration', 'get_reset_rem_loop'), m('SimulationConfiguration', 'get_reset_rem_act')
    VD = C.R.tm('AnalysisGlobalVerdict', 'Display', 'fmt')
    def analyze(A):
        ctx = K.hsf(A); i = K.hif(A, ctx); co, mt = K.htf(A, ctx); op = K.hcf(A, ctx, rA, dA)
        n = app(mtl, mt)
        par = fA(op, 'ana_param')
        k = C.field(par, a('AnalysisParameterization'), 'ana_kind')
        AK = a('AnalysisKind')
        sim = fld(k, AK, 'Simulate', 0) if A.var(k, AK) == 'Simulate' else None
        rl, ra = (app(lo, sim, n, i), app(ac, sim, n, i)) if sim else (I(0), I(0))
        A.b(C.field(par, a('AnalysisParameterization'), 'partial_order_reduction'))
        c = C.struct(a('AnalysisContext'), gen_ctx=ctx, co_localizations=co, multi_trace=mt, init_multitrace_length=n)
        mg = app(new, c, par, app(dele, fA(op, 'strategy'), fA(op, 'priorities')), fA(op, 'filters'), fA(op, 'loggers'), fA(op, 'goal'), fA(op, 'use_memoization'))
        r = app(start, mg, C.struct(a('AnalysisNodeKind'), interaction=i, flags=app(init, app(ncol, co), rl, ra), ana_loop_depth=I(0)))
        return [ARG('htf'), n, ARG('hif'), out(r, 1), out(r, 0)],
    o.append(K.go('analyze', 'analyze', 'cli_analyze', analyze, more=[rA, dA, new, start, dele, mtl, ncol, init, lo, ac, VD]))
    # ---------------------------------------------------------------- explore
    tE, dE, fE = options('HibouExploreOptions')
    rE = f('parse_hcf_file_for_explore')
    def explore(A):
        ctx = K.hsf(A); i = K.hif(A, ctx); op = K.hcf(A, ctx, rE, dE)
        mg = app(new, C.struct(a('ExplorationContext'), gen_ctx=ctx), C.struct(a('ExplorationParameterization')), app(dele, fE(op, 'strategy'), fE(op, 'priorities')),
                 fE(op, 'filters'), fE(op, 'loggers'), none(), fE(op, 'use_memoization'))
        r = app(start, mg, C.struct(a('ExplorationNodeKind'), interaction=i, loop_depth=I(0)))
        return [ARG('hif'), out(r, 0)],
    o.append(K.go('explore', 'explore', 'cli_explore', explore, more=[rE, dE, new, start, dele]))
    # ---------------------------------------------------------------- canonize
    tC, dC, fC = options('HibouCanonizeOptions')
    rC = f('parse_hcf_file_for_canonize')
    frm = m('CanonizationParameterization', 'from_default')
    DC = a('DefaultCanonizationProcess')
    def canonize(A):
        ctx = K.hsf(A); i = K.hif(A, ctx); op = K.hcf(A, ctx, rC, dC)
        mg = app(new, C.struct(a('CanonizationContext'), gen_ctx=ctx), app(frm, mk_adt(DC, 'FivePhases', []), fC(op, 'search_all')), app(dele, fC(op, 'strategy'), fC(op, 'priorities')),
                 fC(op, 'filters'), fC(op, 'loggers'), none(), TRUE)
        r = app(start, mg, C.struct(a('CanonizationNodeKind'), interaction=i, phase=I(0)))
        return [ARG('hif'), out(r, 0)],
    o.append(K.go('canonize', 'canonize', 'cli_canonize', canonize, more=[rC, dC, frm, new, start, dele]))
    # ---------------------------------------------------------------- drawing
    dr, IR = f('draw_interaction'), a('InteractionGraphicalRepresentation')
    def draw(A):
        ctx = K.hsf(A); i = K.hif(A, ctx)
        p = opt(A, 'representation')
        rep = 'sd'
        if p is not None:
            rep = 'sd' if A.b(eq(p, ('str', 'sd'))) else 'tt' if A.b(eq(p, ('str', 'tt'))) else None
        if rep is None: return [p], (), 1
        name = opt(A, 'output')
        if name is None: name = coll('seq', gens_of(app('stem', ARG('hif')), 'seq') + (('spread', ('str', '_repr')),))
        return [ARG('hif'), name], ((dr, ctx, i, mk_adt(IR, {'sd': 'AsSequenceDiagram', 'tt': 'AsTerm'}[rep], []), ('str', 'temp'), ('str', ''), name),)
    o.append(K.go('draw', 'draw', 'cli_draw', draw, events={dr: None}))
    # ---------------------------------------------------------------- slices and mutants
    sl, SK, SG = f('generate_slices'), a('SliceKind'), a('SliceGenerationSelection')
    def stem(n, suffix=''): return coll('seq', (('spread', app('stem', ARG(n))), ('spread', ('str', suffix)))) if suffix else app('stem', ARG(n))
    def optional(A, n):
        p = opt(A, n)
        return none() if p is None else some(p)
    def slices(A):
        ctx = K.hsf(A); co, mt = K.htf(A, ctx)
        d, pre = optional(A, 'parent_folder'), optional(A, 'name')
        sel = mk_adt(SG, 'Exhaustive', [])
        if opt(A, 'random') is not None: sel = mk_adt(SG, 'Random', [K.number(A, 'random', 0), B(flag(A, 'wide'))])
        k = opt(A, 'kind')
        kind = 'Slice'
        if k is not None:
            kind = [v for w, v in (('prefix', 'Prefix'), ('suffix', 'Suffix'), ('slice', 'Slice'), (None, None)) if w is None or A.b(eq(solid(k), ('str', w)))][0]
        if kind is None: return [ARG('htf'), k], (), 1
        return [ARG('htf')], ((sl, ctx, co, stem('htf'), mt, d, pre, sel, mk_adt(SK, kind, [])),)
    o.append(K.go('slice', 'slice', 'cli_slice', slices, events={sl: None}))
    def mutant(cmd, fn, gen, limit, dflt, flags=(), htfs=('htf',)):
        g = f(gen)
        def spec(A):
            ctx = K.hsf(A)
            read = [K.htf(A, ctx, n) for n in htfs]
            if len(read) == 2 and not A.b(eq(read[0][0], read[1][0])): return [read[0][0], read[1][0]], (), 1
            d = optional(A, 'parent_folder')
            n = K.number(A, limit, 1)
            name = opt(A, 'name')
            if name is None: name = stem(htfs[0], dflt)
            args = (ctx, read[0][0]) + tuple(r[1] for r in read) + (d, name, n) + tuple(B(flag(A, x)) for x in flags)
            return [ARG(x) for x in htfs] + [app(g, *args)], ((g,) + args,)
        o.append(K.go(cmd, cmd, fn, spec, more=[g], events={g: True}))
    mutant('mutate_remove_actions', 'cli_mutate_remove_actions', 'generate_remove_actions_mutant', 'max_num_removes', '_remove_actions_mutant')
    mutant('mutate_insert_noise', 'cli_mutate_insert_noise', 'generate_insert_noise_mutant', 'max_num_inserts', '_insert_noise_mutant', ('one_per_compo_max', 'only_at_end'))
    mutant('mutate_swap_actions', 'cli_mutate_swap_actions', 'generate_swap_actions_mutant', 'max_num_swap', '_swap_act_mutant')
    mutant('mutate_swap_components', 'cli_mutate_swap_components', 'generate_swap_components_mutant', 'max_num_swap', '_swap_comp_mutant', htfs=('htf1', 'htf2'))
    # ---------------------------------------------------------------- translation to diagrams
    def puml(cmd, fn, gen, suffix):
        g = f(gen)
        def spec(A):
            ctx = K.hsf(A); i = K.hif(A, ctx)
            name = stem('hsf', suffix)
            return [ARG('hif'), name], ((g, name, stem('hsf'), i, ctx),)
        o.append(K.go(cmd, cmd, fn, spec, events={g: None}))
    puml('puml_sd', 'cli_puml_sd', 'to_plant_uml_sd', '_sd.puml')
    puml('puml_ap', 'cli_puml_ap', 'to_plant_uml_ap', '_ap.puml')
    # ---------------------------------------------------------------- metrics
    can, exf, alp, nfa = m('InteractionMetrics', 'string_summary'), m('InteractionMetrics', 'extract_from_interaction'), f('get_alphabet_from_gen_ctx'), f('get_nfa_from_interaction_exploration')
    cano = f('canonize_interaction')
    todfa = extn(C, 'AutNFA<Letter>>::to_dfa')
    mini = extn(C, 'AutDFA<Letter>>::minimize')
    AN, AD = 'autour_core::nfa::nfa::AutNFA', 'autour_core::dfa::dfa::AutDFA'
    def total(c, n):
        x = fresh()
        return T.mk_sum(x, c, n(x))
    def metrics(A):
        ctx = K.hsf(A); i = app(cano, ctx, K.hif(A, ctx), mk_adt(DC, 'BasicWithUnfoldActions', []))
        k = ARG('kind')
        if A.b(eq(k, ('str', 'INT'))): return [ARG('hif'), app(can, app(exf, i))],
        aut = out(app(nfa, ctx, i, app(alp, ctx)), 0)
        if A.b(eq(k, ('str', 'operatNFA'))):
            trans = fld(aut, AN, 'AutNFA', 3)
            return [ARG('hif'), T.length(trans), total(trans, lambda t: total(t, lambda e: T.length(out(e, 1))))],
        if A.b(eq(k, ('str', 'minDFA'))):
            trans = fld(app(mini, app(todfa, aut)), AD, 'AutDFA', 3)
            return [ARG('hif'), T.length(trans), total(trans, T.length)],
        return [ARG('hif'), k],
    o.append(K.go('get_metrics', 'get_metrics', 'cli_get_metrics', metrics, more=[can, exf, alp, nfa, cano, todfa, mini]))
    o.append(nfa_analyze(C, K, alp))
    o.append(verdicts(C))
    o.append(usage())
    o.append(arguments(C))
    o += dispatch(C, K)
    o += printing(C)
    return o

if __name__ == '__main__':
    for c, a in declared().items(): print(c, a)
