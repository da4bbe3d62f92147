#!/usr/bin/env python3
"""Decide one property of /repo's working tree by static analysis.

usage: check.py <PROPERTY> [--tier quick|thorough] [--floors]
exit 0 held, 1 violated (VIOLATION line), 2 no answer
"""
import sys, os, json, time, re, signal, tempfile, shutil, traceback, multiprocessing

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.dont_write_bytecode = True
import extract
import interp

PROG = {}
KNOWN = []


def run_root(job):
    cfg, root, limit = job
    p = PROG[cfg]
    t = time.time()
    ip = interp.Interp(p)
    ip.deadline = t + limit
    ip.known = lambda key: listed(dict(zip(('root', 'kind', 'msg', 'site'), key)), KNOWN)
    err = None

    def late(sig, frame):
        raise interp.Limit('time')
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, limit + 15)
    try:
        ip.analyse(root)
    except interp.Limit as e:
        err = 'analysis limit: %s' % e
    except Exception:
        err = 'analyser error: ' + traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    st = ip.stats
    return {'config': cfg, 'root': root, 'wall': round(time.time() - t, 2), 'error': err,
            'events': list(ip.events.values()),
            'claims': [[k[1], v['proved'], v['failed'], v['how']] for k, v in ip.claimlog.items()],
            'havoc': {str(k): v for k, v in st['havoc'].items()},
            'fns': sorted({p.fns[f]['def'] for f in st['fns'] if p.fns[f]['krate'] == 'embedded_audio_tools'}),
            'oblig': st['oblig'],
            'stats': {k: st[k] for k in ('steps', 'paths', 'claims', 'forks', 'fixpoints', 'fixiters')}}


def roots_of(p, pid):
    pat = re.compile(r'::claim_%s(_|$)' % pid.lower())
    return [r for r in p.roots if pat.search(r) and '::intr::' not in r]


def load_known():
    out = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                out.append(json.loads(line[len('finding:'):]))
    return out


def listed(e, known):
    return any(all(e.get(f) == k[f] for f in ('root', 'kind', 'msg', 'site') if f in k) for k in known)


GRACE = 40      # after a violation the other scenarios get this long
TOTAL = 840     # a check answers within 900 s


def run_all(jobs, known, t0):
    if not jobs:
        return []
    res = {}
    stop = t0 + TOTAL
    bad = False
    pool = multiprocessing.get_context('fork').Pool(min(8, len(jobs)))
    try:
        todo = {j: pool.apply_async(run_root, (j,)) for j in jobs}
        while todo and time.time() < stop:
            for j in [j for j, a in todo.items() if a.ready()]:
                res[j] = todo.pop(j).get()
                if not bad and any(not listed(e, known) for e in res[j]['events']):
                    bad = True
                    stop = min(stop, time.time() + GRACE)
            if todo:
                next(iter(todo.values())).wait(0.05)
    finally:
        pool.terminate()
        pool.join()
    out = []
    for j in jobs:
        if j in res:
            out.append(res[j])
        else:
            out.append({'config': j[0], 'root': j[1], 'wall': round(time.time() - t0, 2),
                        'error': 'stopped after a violation elsewhere' if bad else 'analysis limit: time',
                        'events': [], 'claims': [], 'havoc': {}, 'fns': [], 'oblig': {},
                        'stats': {k: 0 for k in ('steps', 'paths', 'claims', 'forks', 'fixpoints', 'fixiters')}})
    return out


def build_dependent():
    """the source asks for the build configuration by itself"""
    for d, _, fs in os.walk(os.path.join(VERIF, '..', 'repo', 'src')):
        for f in fs:
            if f.endswith('.rs'):
                with open(os.path.join(d, f), errors='replace') as h:
                    if re.search(r'debug_assert|overflow_checks|opt_level', h.read()):
                        return True
    return False


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import props
    spec = props.PROPS[pid]
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    evfile = os.path.join(ev, pid + '.json')
    rdir = os.path.join(ev, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(rdir, f))
    tmp = tempfile.mkdtemp(prefix='eat-')
    try:
        cfgs = list(spec.get('configs', ['checked']))
        if (tier == 'thorough' or build_dependent()) and 'release' not in cfgs and spec.get('release', True):
            cfgs.append('release')
        try:
            for c in cfgs:
                out = os.path.join(tmp, c + '.json')
                extract.extract(c, out)
                PROG[c] = interp.Program(out)
        except extract.BuildError as e:
            print('NO ANSWER: /repo and the scenarios do not compile together\n' + str(e))
            return 2
        jobs = []
        for c in cfgs:
            rs = roots_of(PROG[c], pid)
            jobs += [(c, r, spec.get('limit', 300)) for r in rs]
        if not jobs and not spec.get('extra'):
            print('NO ANSWER: no scenarios for', pid)
            return 2
        known = [k for k in load_known() if k['property'] == pid]
        KNOWN[:] = known
        res = run_all(jobs, known, t0)
        extra = []
        for fn in spec.get('extra', []):
            extra.append(fn(PROG, tmp, tier))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    floors = {}
    ff = os.path.join(VERIF, 'floors.json')
    if os.path.exists(ff):
        floors = json.load(open(ff))
    if '--floors' in sys.argv:
        floors = {k: v for k, v in floors.items() if not re.search(r'::claim_%s(_|$)' % pid.lower(), k)}
        for r in res:
            if r['config'] == 'checked':
                floors[r['root']] = sorted({c[0] for c in r['claims'] if c[1]})
        json.dump(floors, open(ff, 'w'), indent=1, sort_keys=True)

    viol, errors, kf = [], [], []
    for r in res:
        if r['error'] and r['error'].startswith('analysis limit'):
            # fail closed: the obligations of this scenario are not discharged
            if not r['events']:
                r['events'].append({'root': r['root'], 'kind': 'undecided', 'msg': 'not discharged', 'site': r['root'],
                                    'detail': r['error'], 'stack': [], 'trace': []})
        elif r['error'] and not r['error'].startswith('stopped'):
            errors.append('%s [%s]: %s' % (r['root'], r['config'], r['error']))
        for e in r['events']:
            e['config'] = r['config']
            e['havoc'] = r['havoc']
            (kf if listed(e, known) else viol).append(e)
        if not r['error'] and r['config'] == 'checked':
            have = {c[0] for c in r['claims'] if c[1] or c[2]}
            for m in floors.get(r['root'], []):
                if m not in have and not any(e['root'] == r['root'] for e in viol):
                    viol.append({'root': r['root'], 'kind': 'unreachable obligation', 'msg': m, 'site': r['root'],
                                 'detail': 'no execution reaches this obligation any more (every path before it fails)',
                                 'stack': [], 'trace': [], 'config': r['config'], 'havoc': r['havoc']})
    for x in extra:
        for e in x.get('violations', []):
            e.setdefault('stack', [])
            e.setdefault('trace', [])
            (kf if listed(e, known) else viol).append(e)
        errors += x.get('errors', [])

    claims = sum(c[1] + c[2] for r in res for c in r['claims'])
    proved = sum(c[1] for r in res for c in r['claims'])
    how, oblig = {}, {}
    for r in res:
        for c in r['claims']:
            for k, v in c[3].items():
                how[k] = how.get(k, 0) + v
        for k, v in r['oblig'].items():
            oblig[k] = oblig.get(k, 0) + v
    fns = sorted({f for r in res for f in r['fns']})
    xo = sum(x.get('obligations', 0) for x in extra)
    xd = sum(x.get('discharged', 0) for x in extra)
    cov = {'explanation': spec['rule'],
           'obligations': claims + xo, 'discharged': proved + xd,
           'discharged_by': how, 'implicit_obligations': oblig,
           'scenarios': len(res), 'paths': sum(r['stats']['paths'] for r in res),
           'abstract_steps': sum(r['stats']['steps'] for r in res),
           'loop_invariants': sum(r['stats']['fixpoints'] for r in res),
           'functions_analysed': fns, 'configurations': cfgs,
           'unsupported_constructs': sorted({h for r in res for h in r['havoc']}),
           'samples': [{'scenario': r['root'], 'config': r['config'], 'paths': r['stats']['paths'], 'wall_s': r['wall'],
                        'claims': [{'claim': c[0], 'proved': c[1], 'failed': c[2], 'by': c[3]} for c in r['claims']]}
                       for r in res]}
    for x in extra:
        cov.update(x.get('coverage', {}))
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
               'assumptions': spec.get('assumptions', []) + props.COMMON, 'wall_s': round(time.time() - t0, 2),
               'violations': len(viol), 'known_findings': len(kf)}, open(evfile, 'w'), indent=1)

    for l in dict.fromkeys('%s in %s: %s' % (e['kind'], e['site'], e['msg']) for e in kf):
        print('KNOWN-FINDING: property=%s %s' % (pid, l))
    n = 0
    for e in viol[:20]:
        path = os.path.join('evidence', 'replay', '%s-%d.json' % (pid, n))
        n += 1
        json.dump({'property': pid, **e}, open(os.path.join(VERIF, path), 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s: %s  [%s]' % (e['kind'], e['msg'], e['site']))
        if e.get('detail'):
            print('  ' + e['detail'][:400])
        for s in e['stack'][:5]:
            print('    at ' + s)
        for s in e['trace'][-8:]:
            print('    if ' + s[:200])
        if e.get('havoc'):
            print('    not analysable: ' + '; '.join(e['havoc'])[:300])
    for e in errors[:10]:
        print('NO ANSWER: ' + e)
    if viol:
        return 1
    if errors:
        return 2
    print('%s holds: %d scenarios, %d paths, %d/%d obligations discharged in %.1fs'
          % (pid, len(res), cov['paths'], cov['discharged'], cov['obligations'], time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
