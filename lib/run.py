"""Runner of one check: python3 run.py <property> <quick|thorough>"""
import sys, os, json, time, importlib, hashlib, traceback, signal, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts as F

MODULES = ('specs_core', 'specs_static', 'specs_transfo', 'specs_ana', 'specs_proc', 'specs_misc', 'specs_io', 'specs_out', 'specs_mut', 'specs_cli', 'specs_puml', 'specs_draw', 'specs_rng')

def load_known():
    p = os.path.join(F.VERIF, 'known-findings.txt')
    known = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: '):
                # finding: property=<id> key=<key> | <description>
                head, desc = l[9:].split(' | ', 1)
                pid, key = head.split(' key=', 1)
                known[(pid.split('=')[1], key)] = desc
    return known

def vkey(obl, msg):
    return obl

class OutOfTime(BaseException): pass

def limited(f, seconds):
    """an obligation that takes longer than it is given, or too much memory, is left undecided"""
    def stop(*_): raise OutOfTime('out of time (%d s)' % seconds)
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(max(1, int(seconds)))
    try: return f()
    finally:
        signal.alarm(0); signal.signal(signal.SIGALRM, old)

def main(pid, tier):
    t0 = time.time()
    # quick: at most 240 s an obligation, 780 s in all; thorough: the facts are extracted anew and an obligation may take an hour
    each, total = (3600, 10 ** 6) if tier == 'thorough' else (240, 780)
    import mir, pp, resolve
    path = F.facts(lambda s: print('[build] ' + s, flush=True), force=tier == 'thorough')
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    P = mir.Program(path)
    pp.names(P)
    for m in MODULES:
        if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + '.py')): importlib.import_module(m)
    import base, specs_core, contract
    known = load_known()
    viols, unds, finds = [], [], []
    obls = []
    stopped = False
    fns = set(); leaves = outcomes = loops = 0
    try:
        C = specs_core.Core2(P)
        obls = limited(lambda: base.PROPS[pid](C), each)
    except resolve.Missing as e:
        viols.append(('anchor', 'anchor not found in the tree: %s' % e))
    except (Exception, OutOfTime) as e:
        stopped = True
        traceback.print_exc()
        unds.append(('the obligations of the property', 'the analysis stopped: %r' % (e,)))
    sites = 0
    disc = 0
    listing = []
    for o in obls:
        try:
            rs = limited(o.run, min(each, total - (time.time() - t0)))
        except resolve.Missing as e:
            viols.append((o.name, 'anchor not found in the tree: %s' % e)); continue
        except (Exception, OutOfTime) as e:
            # an analysis that stumbles decides nothing: it is reported as such
            unds.append((o.name, 'the analysis stopped: %r' % (e,))); sites += 1
            listing.append({'obligation': o.name, 'at': '', 'partitions': 0, 'outcomes': 0, 'verdict': 'undecided'})
            continue
        for r in (rs if isinstance(rs, list) else [rs]):
            fns |= set(r.functions); leaves += r.leaves; outcomes += r.outcomes; loops += r.loops
            new = []
            for x in r.violations:
                k = (pid, getattr(r, 'key', None) or r.cid)
                if k in known: finds.append((k[1], known[k]))
                else: new.append((r.cid, x))
            viols += new
            for x in r.undecided: unds.append((r.cid, x))
            ok = not r.violations and not r.undecided
            disc += ok
            sites += 1
            listing.append({'obligation': r.cid, 'at': r.where, 'partitions': r.leaves, 'outcomes': r.outcomes,
                            'verdict': 'discharged' if ok else ('violated' if r.violations else 'undecided')})
    if not stopped and pid in base.FLOORS and sites < base.FLOORS[pid]:
        viols.append(('coverage', 'only %d rule instances matched, %d expected: the rule lost its subject' % (sites, base.FLOORS[pid])))
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {'explanation': 'Static analysis of the MIR of the current tree: each obligation is a function (or table) of the program whose '
                       'summary, computed by forward abstract interpretation with trace partitioning, is compared with its specification in every partition. '
                       + base.NOTES.get(pid, ''),
                       'obligations': sites, 'discharged': disc, 'undecided': sites - disc - len({c for c, _ in viols}) if not viols else len({c for c, _ in unds}),
                       'functions_analysed': len(fns), 'partitions_compared': leaves, 'paths_summarised': outcomes, 'loops_summarised': loops,
                       'facts': {'functions_in_program': len(P.bodies), 'types_in_program': len(P.adts)},
                       'instances': listing, 'undecided_reports': ['%s: %s' % u for u in unds][:50]},
          'assumptions': base.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 3), 'violations': len(viols)}
    os.makedirs(os.path.join(F.VERIF, 'evidence'), exist_ok=True)
    ep = os.path.join(F.VERIF, 'evidence', pid + '.json')
    with open(ep, 'w') as f: json.dump(ev, f, indent=1)
    print('%s [%s]: %d obligations, %d discharged, %d functions, %d partitions, %.1fs' % (pid, tier, sites, disc, len(fns), leaves, time.time() - t0))
    for c, x in unds[:20]: print('UNDECIDED: %s: %s' % (c, x[:600]))
    for k, d in sorted(set(finds)): print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, d))
    if viols:
        rp = os.path.join(F.VERIF, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as f:
            for c, x in viols: f.write('[%s] %s\n\n' % (c, x))
        for c, x in viols[:8]: print('  [%s] %s' % (c, x[:1500]))
        if len(viols) > 8: print('  ... %d more in %s' % (len(viols) - 8, rp))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0

if __name__ == '__main__':
    try:
        rc = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    except F.BuildError as e:
        print(e); rc = 2
    except Exception:
        traceback.print_exc(); rc = 3
    sys.exit(rc)
